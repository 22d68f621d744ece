From 5ea64a8b7317bbd8e99ef830ad7dadb2ecf62a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 01/77] fix: restore the working directory when file path
 expansion fails

---
 nxt/nxt_path.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..3f9cb84 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -26,12 +26,13 @@ def full_file_expand(path, start=None):
     orig_cwd = os.getcwd()
     if start:
         os.chdir(start)
-
-    full_path = unify_env_vars(path)
-    full_path = os.path.expandvars(full_path)
-    full_path = os.path.expanduser(full_path)
-    full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
+    try:
+        full_path = unify_env_vars(path)
+        full_path = os.path.expandvars(full_path)
+        full_path = os.path.expanduser(full_path)
+        full_path = os.path.realpath(full_path)
+    finally:
+        os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
-- 
2.43.0


From 1f6c9874388a62248e1e4c7bdf291f8e9306010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 02/77] fix: restore the working directory when loading a
 referenced layer fails

---
 nxt/stage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..0df4c07 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -352,6 +352,17 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
+        try:
+            self._load_references(layer_data, parent_layer, real_path)
+        finally:
+            os.chdir(old_cwd)
+
+    def _load_references(self, layer_data, parent_layer, real_path):
+        """Loads the layers referenced by the given layer data.
+        :param layer_data: Clean dict of an nxt save file
+        :param parent_layer: `Layer` object loaded from `layer_data`
+        :param real_path: Absolute path `layer_data` was loaded from
+        """
         for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
             try:
                 layer_data = nxt_io.load_file_data(sub_layer_path)
@@ -372,7 +383,6 @@ class Stage:
                     parent_layer.sub_layers.remove(dat)
                 continue
             self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From 6d983fdf1cc16fd46ffb64db1dc50096a1e5df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 03/77] fix: compare node paths and names by value when listing
 children

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..86c543b 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -328,7 +328,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
@@ -366,7 +366,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
-- 
2.43.0


From c9635b1a889b641c7ffe3f55a9634792f1c0ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 04/77] fix: do not hand out the child cache itself from
 children()

---
 nxt/nxt_layer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 86c543b..a05a2b0 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -343,8 +343,11 @@ class SpecLayer(object):
                     if trimmed not in implied_children:
                         implied_children += [trimmed]
         if cache_real:
-            k = LayerReturnTypes.Path
-            self._cached_children[node_path][k] = children_paths[:]
+            self._cached_children[node_path] = {
+                LayerReturnTypes.Node: children_nodes[:],
+                LayerReturnTypes.Path: children_paths[:],
+                LayerReturnTypes.NodeTable: node_table[:],
+                LayerReturnTypes.NameDict: copy.copy(name_dict)}
         if include_implied:
             for imp in implied_children:
                 if imp not in children_paths:
-- 
2.43.0


From 76bcd7011b7e4f912a3ae163e8d9942a69012998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 05/77] fix: do not repeat ordered children in the node table

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index a05a2b0..243a561 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -393,7 +393,7 @@ class SpecLayer(object):
             # return type TABLE
             for item in node_table:
                 p, n = item
-                if p not in ordered_node_table:
+                if item not in ordered_node_table:
                     ordered_node_table += [item]
             node_table = ordered_node_table
 
-- 
2.43.0


From 9bcebac95abbe7a1c49e6e5b56e7384455b8050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 06/77] fix: key ancestors by their own name in the ancestor
 name dict

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 243a561..e3f1f73 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -247,7 +247,7 @@ class SpecLayer(object):
                 elif return_type == LayerReturnTypes.NodeTable:
                     node_table += [[parent_path, _node]]
                 elif return_type == LayerReturnTypes.NameDict:
-                    key = getattr(node, nxt_node.INTERNAL_ATTRS.NAME)
+                    key = getattr(_node, nxt_node.INTERNAL_ATTRS.NAME)
                     name_dict[key] = _node
                 node = _node
                 ppath_attr = nxt_node.INTERNAL_ATTRS.PARENT_PATH
-- 
2.43.0


From e3f47f1014c016d7c6c2241b58f63c45d26f9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 07/77] fix: return every descendant when descendant nodes are
 requested

---
 nxt/nxt_layer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index e3f1f73..04f8f8d 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -448,6 +448,10 @@ class SpecLayer(object):
                 for d_pth in more_descendants:
                     _temp += self.children(d_pth, return_type,
                                            include_implied=include_implied)
+            elif return_type == LayerReturnTypes.Node:
+                for d in more_descendants:
+                    _temp += self.children(self.get_node_path(d), return_type,
+                                           include_implied=include_implied)
             elif return_type == LayerReturnTypes.NodeTable:
                 for d_pth, d in more_descendants:
                     _temp += self.children(d_pth, return_type,
-- 
2.43.0


From 88983df6e29415ca656630e9d28bda46ddfbb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 08/77] fix: end the execution order when execute-in links form
 a cycle

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 04f8f8d..c73e744 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -625,6 +625,8 @@ class SpecLayer(object):
                     continue
                 if not match:
                     continue
+                if self.get_node_path(root) in exec_order:
+                    continue  # Cyclic execute in, each root is run once
                 prev_root_path = self.get_node_path(root)
                 exec_order += [prev_root_path]
                 break  # for loop
-- 
2.43.0


From d79a499e80517f9683382469e9fc82aecb1d07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 09/77] fix: drop every stale child listing when nodes of a
 layer move

---
 nxt/nxt_layer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index c73e744..bf6a37a 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -178,6 +178,9 @@ class SpecLayer(object):
         """Re-populates the node table, and sets nodes' source layer.
         """
         self._node_table = []
+        # Paths that only exist as implied parents have listings too
+        self._cached_children = {}
+        self._cached_implied_children = {}
         for path, node in self._nodes_path_as_key.items():
             for attr in get_node_local_attr_names(path, [self]):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
@@ -567,10 +570,8 @@ class SpecLayer(object):
             self._cached_children.pop(parent_path)
         except KeyError:
             pass
-        try:
-            self._cached_implied_children.pop(parent_path)
-        except KeyError:
-            pass
+        # Any ancestor may list an implied child on the way to this path
+        self._cached_implied_children = {}
 
     def get_exec_order(self, start_path):
         if start_path == nxt_path.WORLD:
-- 
2.43.0


From a82810602022d4e67e19ab020fa660bee0e74440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 10/77] fix: delete implied descendants along with their real
 ones

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 0df4c07..9d2b719 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -830,7 +830,7 @@ class Stage:
         descendants = layer.descendants(node_path, layer.RETURNS.Path,
                                         include_implied=True)
         if delete_descendants:
-            remove_node_paths += descendants
+            remove_node_paths += [p for p in descendants if layer.lookup(p)]
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
         for remove_path in remove_node_paths:
-- 
2.43.0


From 00d2bb46dd11a923c224481214b744512eb99126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 11/77] fix: looking up a missing node gives no execute-in and
 no ancestors

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index bf6a37a..2c038b4 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -205,7 +205,7 @@ class SpecLayer(object):
 
     def get_exec_in(self, node_path):
         node = self.lookup(node_path)
-        parent_path = getattr(node, nxt_node.INTERNAL_ATTRS.PARENT_PATH)
+        parent_path = getattr(node, nxt_node.INTERNAL_ATTRS.PARENT_PATH, None)
         if node and parent_path == nxt_path.WORLD:
             try:
                 return getattr(node, nxt_node.INTERNAL_ATTRS.EXECUTE_IN)
@@ -234,7 +234,7 @@ class SpecLayer(object):
         if not node_path_is_str:
             node_path = self.get_node_path(node_path)
         node = self.lookup(node_path)
-        parent_path = getattr(node, nxt_node.INTERNAL_ATTRS.PARENT_PATH)
+        parent_path = getattr(node, nxt_node.INTERNAL_ATTRS.PARENT_PATH, None)
         if node:
             while parent_path != nxt_path.WORLD:
                 _node = self.lookup(parent_path)
-- 
2.43.0


From 402e99491d57cb84dd5a329779df664f2ec3e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 12/77] fix: keep listing a composite path's other children
 when its node is added

---
 nxt/stage.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9d2b719..1432d44 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -690,7 +690,6 @@ class Stage:
             return_nodes += new_children
             # Early exit if no/invalid comp layer
             return return_nodes, [new_path] + dirty_children
-        comp_layer.clear_node_child_cache(node_path)
         return_nodes = new_nodes
         comp_node = self.targeted_comp_pre_proxies(spec_node=new_node,
                                                    new_node_path=node_path,
-- 
2.43.0


From 6ddedad0697313fea6fcff642cc5dd364dc194fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 13/77] fix: load the muted and soloed state a layer was saved
 with

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 2c038b4..bc61996 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -109,8 +109,8 @@ class SpecLayer(object):
         self._cached_implied_children = {}
         self._name = UNTITLED
         self._layer_idx = 0
-        self.mute = False
-        self.solo = False
+        self.mute = layer_data.get(SAVE_KEY.MUTE, False)
+        self.solo = layer_data.get(SAVE_KEY.SOLO, False)
         self.filepath = layer_data.get(SAVE_KEY.FILEPATH)
         self.real_path = layer_data.get(SAVE_KEY.REAL_PATH)
         self.cwd = layer_data.get(SAVE_KEY.CWD)
-- 
2.43.0


From d1f263e8d833ec5f40f33d8191f515b6dfbc93db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 14/77] fix: save the locked state of a layer

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index bc61996..ed73aba 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -891,6 +891,8 @@ class SpecLayer(object):
             SAVE_KEY.COLOR: self.color,
             SAVE_KEY.META_DATA: self.get_meta_data(),
             SAVE_KEY.NODES: self.get_nodes_save_data()}
+        if self.get_locked(local=True):
+            save_dict[SAVE_KEY.LOCK] = True
         rm = []
         for k, v in save_dict.items():
             if v in ((), [], {}):
-- 
2.43.0


From 507610c82ee2ae69dca562176170decae191a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 15/77] fix: keep attribute values that are false, zero or
 empty when saving a node

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..1a6560f 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -257,7 +257,7 @@ def get_node_as_dict(spec_node):
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
         if typ:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value is not None:
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From b1d39541042ea51c2374c90a0599a2e184714713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 16/77] fix: save to a temp file when no file path is given

---
 nxt/nxt_io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 2df457e..5c9bdf8 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -124,13 +124,12 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
     """
     start = time.time()
     ext = file_format
+    filepath = filepath or generate_temp_file(suffix=ext)
     _, filepath_ext = os.path.splitext(filepath)
     if filepath_ext not in FILE_FORMAT._ALL:
         raise TypeError('Unknown file extension "{}"'.format(filepath_ext))
     elif filepath_ext != ext:
         ext = filepath_ext
-    filepath = filepath or tempfile.mkstemp(prefix='nxt_tmp_',
-                                            suffix=ext)[1]
     filepath = filepath.replace(os.sep, '/')
     if not filepath.endswith(ext):
         filepath += ext
-- 
2.43.0


From b2bec33168ae8734c20e26e29fca166117881fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 17/77] fix: close the handle of generated temp files

---
 nxt/nxt_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 5c9bdf8..23ff35d 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -154,7 +154,8 @@ def generate_temp_file(suffix='.nxt'):
     :param suffix: Optional suffix for the file, default is `.nxt`
     :return: String filepath
     """
-    _, cache_filepath = tempfile.mkstemp(suffix=suffix)
+    handle, cache_filepath = tempfile.mkstemp(suffix=suffix)
+    os.close(handle)
     return cache_filepath.replace(os.sep, '/')
 
 
-- 
2.43.0


From ab419b14e829d4cee906763205fd941f7a6631d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 18/77] fix: leave the file alone when its new content can not
 be serialized

---
 nxt/nxt_io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 23ff35d..538e9ce 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -135,13 +135,17 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
         filepath += ext
     if file_format == FILE_FORMAT.BINARY:
         gc.disable()
+        try:
+            content = pickle.dumps(save_data, protocol=-1)
+        finally:
+            gc.enable()
         with open(filepath, 'wb') as out_file:
-            pickle.dump(save_data, out_file, protocol=-1)
-        gc.enable()
+            out_file.write(content)
     else:
+        content = json.dumps(save_data, indent=4, sort_keys=False,
+                             separators=(',', ': '))
         with open(filepath, 'w') as out_file:
-            json.dump(save_data, out_file, indent=4, sort_keys=False,
-                      separators=(',', ': '))
+            out_file.write(content)
     logger.info('Successfully saved "' + filepath + '"')
     update_time = str(int(round((time.time() - start) * 1000)))
     logger.debug("Saved in: " + update_time + "ms")
-- 
2.43.0


From 621c2fdad79d226991f4b77fa220706cf4e6f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 19/77] fix: keep the alias of an untitled layer when saving it
 fails

---
 nxt/nxt_layer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index ed73aba..4f256e0 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -836,9 +836,10 @@ class SpecLayer(object):
         filepath = filepath or self.real_path
         # Update graph name
         graph_name = os.path.splitext(os.path.basename(filepath))[0]
-        if self.get_alias(local=True) == UNTITLED:
-            self.set_alias(graph_name)
         save_data = self.get_save_data()
+        untitled = self.get_alias(local=True) == UNTITLED
+        if untitled:
+            save_data[SAVE_KEY.ALIAS] = graph_name
         try:
             json.dumps(save_data, indent=4, sort_keys=False)
         except TypeError:
@@ -848,6 +849,8 @@ class SpecLayer(object):
             return
         logger.info("Save Data Generated")
         nxt_io.save_file_data(save_data=save_data, filepath=filepath)
+        if untitled:
+            self.set_alias(graph_name)
         if filepath != self.real_path:
             self.real_path = filepath
             self.propegate_real_path()
-- 
2.43.0


From 116177012b12502b33bcba8fdc263d874a52c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 20/77] fix: restore the calling node after node code runs
 other nodes

---
 nxt/stage.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1432d44..2791333 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4101,6 +4101,10 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     # Convert the compute string to a code object for running in console
     _code, lines = stage.get_node_code(rt_node, runtime_layer, custom_code)
     good_keys = list(graph_globals.keys())
+    # Node code can run other nodes, so this may be a run within a run
+    nested = runtime_layer.running
+    outer_run = (console.node_path, console.running_lines,
+                 console.globals.get('self'))
     console.node_path = rt_path
     console.running_lines = lines
     console.globals['self'] = frame_node
@@ -4111,12 +4115,16 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except GraphError:
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
-        runtime_layer.running = False
+        runtime_layer.running = nested
         raise
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
-    runtime_layer.running = False
+    finally:
+        if nested:
+            (console.node_path, console.running_lines,
+             console.globals['self']) = outer_run
+    runtime_layer.running = nested
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-- 
2.43.0


From 1e407a89fcf71d3867449edabd16472d8e1badc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 21/77] fix: reset the run state when node code is interrupted

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 2791333..91dab8d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4112,7 +4112,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     exit_exception = None
     try:
         console.runcode(_code)
-    except GraphError:
+    except (GraphError, KeyboardInterrupt):
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
         runtime_layer.running = nested
-- 
2.43.0


From 3a0a42358713d0c00b314ea3dcdb9f39cc420cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 22/77] fix: keep running when node code deletes one of its
 attributes

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 91dab8d..8f2e605 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4128,7 +4128,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-        post_run_val = getattr(frame_node, attr_name)
+        post_run_val = getattr(frame_node, attr_name, pre_run_val)
         if pre_run_val == post_run_val:
             continue
         # Push only changed values back to rt_node, which represents
-- 
2.43.0


From 36c513cd6235691334374ab24d637d52c269cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 23/77] fix: run nodes whose attributes hold objects that can
 not be copied

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8f2e605..25611aa 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4093,7 +4093,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         try:
             pre_run_cache[attr] = copy.deepcopy(real)
             setattr(frame_node, attr, copy.deepcopy(real))
-        except RuntimeError:
+        except Exception:
             pre_run_cache[attr] = real
             setattr(frame_node, attr, real)
     # Cache the node before exec so we can see what it tried to run if it fails
-- 
2.43.0


From 1c08747c2f7d21a7f16bf6289b8324df7e536201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 24/77] fix: treat text that is not a valid literal as raw

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 25611aa..7f77cc9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4162,7 +4162,7 @@ def clean_globals(code_lines, good_keys, global_dict):
 def determine_nxt_type(value):
     try:
         type_name = type(literal_eval(value)).__name__
-    except (ValueError, NameError, SyntaxError):
+    except (ValueError, NameError, SyntaxError, TypeError):
         type_name = 'raw'
     return type_name
 
-- 
2.43.0


From 8929e812e16b555c41ae36646aca3f4fceff0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 25/77] fix: let the world node exit itself or the graph

---
 nxt/stage.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7f77cc9..000b5db 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4017,7 +4017,15 @@ class Stage:
         _code, lines = self.get_node_code(layer_node, runtime_layer)
         runtime_layer._console.node_path = nxt_path.WORLD
         runtime_layer._console.running_lines = lines
-        runtime_layer._console.runcode(_code)
+        try:
+            runtime_layer._console.runcode(_code)
+        except ExitNode as exit_node:
+            logger.debug('Exited Node {}: {}'.format(nxt_path.WORLD,
+                                                     exit_node))
+        except ExitGraph as exit_graph:
+            runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
+            exit_graph.runtime_layer = runtime_layer
+            raise
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
         return runtime_layer
 
-- 
2.43.0


From 34898371ff1ec27107f59c6db84bab265472b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:08 +0000
Subject: [PATCH 26/77] fix: close the innermost open timing when a node runs
 itself

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 4f256e0..6d4df54 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1022,9 +1022,9 @@ class CacheLayer(SpecLayer):
             t = time.time()
         try:
             node_runs = self.node_time_map[node_path]
-        except IndexError:
+        except KeyError:
             raise IndexError('No start time set for {}'.format(node_path))
-        for run_time in node_runs:
+        for run_time in reversed(node_runs):
             if run_time[1] is None:
                 run_time.pop(1)
                 run_time += [t]
-- 
2.43.0


From 6723fcc0abc8028f131c4486bc02ae450768d259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 27/77] fix: pass the start node to contexts that have extra
 arguments

---
 nxt/remote/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 7ea5b13..b494938 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -124,6 +124,8 @@ class ServerFunctions(object):
                     '/.cache_file', cache_path]
         if parameters_file:
             cli_args += ['/.parameters_file', parameters_file]
+        if start_node:
+            cli_args += ['/enter/call_graph._start', start_node]
         script = os.path.join(os.path.dirname(__file__), '..', 'cli.py')
         script = os.path.abspath(script)
         script = script.replace(os.sep, '/')
@@ -134,8 +136,6 @@ class ServerFunctions(object):
             args = [context_exe] + extra_args + [script, '--'] + cli_args
         else:
             args = [context_exe, script] + cli_args
-            if start_node:
-                args += ['/enter/call_graph._start', start_node]
         # HACK solution only until refined context system rolls out to relate
         # format strings to context names to include space for cli args.
         if 'UE4Editor' in context_exe:
-- 
2.43.0


From 1a16ebcea965faf364237780a6f8662c94f5a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 28/77] fix: execute from the given start point index

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 000b5db..b975624 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3795,7 +3795,7 @@ class Stage:
             start_nodes = self.get_layer_start_nodes(layer)
             if not start_nodes:
                 raise ValueError("No start specified and no start nodes.")
-            start_path = start_nodes[0]
+            start_path = start_nodes[start or 0]
         exec_order = layer.get_exec_order(start_path)
         return self.execute_nodes(exec_order, layer, parameters)
 
-- 
2.43.0


From 5195a1d7455b882e08a9921900424641b5f019d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 29/77] fix: save the loaded graph that has the given path

Session.save_file looked the path up in the graphs' uids and called a method
Stage does not have, so it never saved anything.
---
 nxt/session.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index b7eb1f6..705b16e 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -115,12 +115,11 @@ class Session(object):
         current_path = None
         if graph_file_path:
             current_path = os.path.normcase(graph_file_path)
-        if current_path in (k[0] for k in self._loaded_files.keys()):
-            self._loaded_files[current_path].save_layer(filepath=target_path)
-            if current_path != target_path:
-                changed_graph = self._loaded_files.pop(current_path)
-                self._loaded_files[target_path] = changed_graph
-            return True
+        for stage in self._loaded_files.values():
+            real_path = stage.top_layer.real_path
+            if real_path and os.path.normcase(real_path) == current_path:
+                self.save_layer(stage.top_layer, filepath=target_path)
+                return True
         else:
             return False
 
-- 
2.43.0


From cf785af3502d9382622f7b776eb3fe4b1cc098cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 30/77] fix: count root nodes with the layers' children

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b975624..05bfbb6 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -310,7 +310,7 @@ class Stage:
     def total_roots(self):
         total_roots = 0
         for l in self._sub_layers:
-            total_roots += len(l._children)
+            total_roots += len(l.children())
         return total_roots
 
     @staticmethod
-- 
2.43.0


From f49705fce0984b1507ea763fce1e3b507e4383dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 31/77] fix: take the token markers from the tokens module

---
 nxt/stage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 05bfbb6..79b015d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1836,10 +1836,10 @@ class Stage:
         :return: before_token, token_content, after_token
         :rtype: tuple(str, str, str)
         """
-        before, sep, after_bef = text.rpartition(nxt_path.TOKEN_PREFIX)
+        before, sep, after_bef = text.rpartition(tokens.TOKEN_PREFIX)
         if not sep:
             return (None, None, None)
-        token, sep, after = after_bef.partition(nxt_path.TOKEN_SUFFIX)
+        token, sep, after = after_bef.partition(tokens.TOKEN_SUFFIX)
         if not sep:
             # msg = 'bad resolve formatting, cannot find closer for {}'
             # msg = msg.format(before + nxt_path.TOKEN_PREFIX)
-- 
2.43.0


From 141b4aa6242a19e6b40ff31d107de952b252ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 32/77] fix: raise a constructible error when the sub graph has
 no cache

GraphError takes six arguments, so the intended message was lost to a
TypeError.
---
 nxt/builtin/remote_contexts.nxt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/builtin/remote_contexts.nxt b/nxt/builtin/remote_contexts.nxt
index 844ad52..c66f0c8 100644
--- a/nxt/builtin/remote_contexts.nxt
+++ b/nxt/builtin/remote_contexts.nxt
@@ -67,8 +67,8 @@
                 "try:",
                 "    file_data = nxt_io.load_file_data(cache_file)",
                 "except:",
-                "    raise GraphError('Failed to open cache from remote sub graph. '",
-                "                     'Usually this means the sub graph did not execute')",
+                "    raise IOError('Failed to open cache from remote sub graph. '",
+                "                  'Usually this means the sub graph did not execute')",
                 "nodes = file_data.get(nxt_io.SAVE_KEY.NODES, {})",
                 "world_node = nodes.get(nxt_path.WORLD, {})",
                 "world_node_attrs = world_node.get(nxt_io.SAVE_KEY.ATTRS, {})",
-- 
2.43.0


From d9e58816148d5edd0928676961d715ca57849220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 33/77] fix: compare node paths by value

Equal paths are usually different objects, so these were compared by chance.
---
 nxt/stage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 79b015d..6937eec 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -87,7 +87,7 @@ class CompArc(object):
         if parent_path == check_path and nxt_path.is_ancestor(comp_path,
                                                               check_path):
             return CompArc.PARENT
-        if (inst_path is check_path or
+        if (inst_path == check_path or
                 nxt_path.is_ancestor(check_path, inst_path) or
                 node_to_check in Stage.get_instance_sources(comp_node, [],
                                                             comp_layer)):
@@ -1189,7 +1189,7 @@ class Stage:
             # Update descendants nodes
             old_paths += [old_path]
             for path, n in list(_path_data.items()):
-                if path is new_path:
+                if path == new_path:
                     continue
                 # Update all other paths that start with the old path
                 if nxt_path.is_ancestor(path, old_path):
@@ -2941,7 +2941,7 @@ class Stage:
                 else:
                     cur_inst = getattr(inst_node,
                                        INTERNAL_ATTRS.INSTANCE_PATH, None)
-                    if cur_inst is not des:
+                    if cur_inst != des:
                         setattr(inst_node, INTERNAL_ATTRS.INSTANCE_PATH, des)
                 arc_dict = proxy_map.get(inst_node, {})
                 proxy_parent_path = nxt_path.get_parent_path(tgt_path)
@@ -3510,7 +3510,7 @@ class Stage:
         node_concerns = dirty_map.get(node_path, [])
         if not node_concerns:
             dirty_map[node_path] = node_concerns
-        if concern is not node_path and concern not in node_concerns:
+        if concern != node_path and concern not in node_concerns:
             node_concerns += [concern]
         return dirty_map
 
-- 
2.43.0


From acfc74f63bd23611bde7b6fa56631f5402796b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 34/77] fix: keep an instance's child order when the reordered
 run is not in it

The comparison was with the list the name was just copied from, so it never
held and the instance lost the order of its other children.
---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 6937eec..e3bb29d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3637,7 +3637,7 @@ class Stage:
                         updated_child_order[i:old_len + i] = new_child_order
                         break
                     i += 1
-                if updated_child_order is new_child_order:
+                else:
                     updated_child_order = inst_old
             elif old_set.intersection(target_set):
                 updated_child_order = inst_old
-- 
2.43.0


From f873dbfc31dfd1c9d0a87eba1e23e7a3ce0bc842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 35/77] fix: drop empty references when converting from 1.14

---
 nxt/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 8380692..2d05a99 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -410,7 +410,7 @@ class V114(LegacyFileConverter):
             self.file_data.pop('mute')
         if self.file_data.get('solo') is False:
             self.file_data.pop('solo')
-        if self.file_data.get('references') is []:
+        if self.file_data.get('references') == []:
             self.file_data.pop('references')
         self.arrange_node_data()
         self.deep_order_data(self.file_data)
-- 
2.43.0


From 5fecfe04245bfdbd0b5c71a247229904430c8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 36/77] fix: shut the rpc server down when the stage or the
 client cannot be built

---
 nxt/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 705b16e..6808eb1 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -177,8 +177,8 @@ class Session(object):
                 self.shutdown_rpc_server()
         else:
             self._start_rpc_server()
-            proxy = NxtClient()
             try:
+                proxy = NxtClient()
                 cache_file = proxy.exec_in_headless(filepath, start, None,
                                                     parameters, context)
                 return nxt_layer.CacheLayer.load_from_filepath(cache_file)
@@ -188,8 +188,8 @@ class Session(object):
     def execute_nodes(self, filepath, node_paths, parameters=None):
         stage = self.get_stage(filepath)
         self.start_rpc_if_needed(stage)
-        comp_layer = stage.build_stage()
         try:
+            comp_layer = stage.build_stage()
             return stage.execute_nodes(node_paths=node_paths,
                                        layer=comp_layer, parameters=parameters)
         finally:
-- 
2.43.0


From 25ef973014ebddd07bb0742ab2e3137c60c25064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 37/77] fix: keep owning the rpc server when another start
 finds it running

The second start returns nothing, and the server was never shut down.
---
 nxt/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/session.py b/nxt/session.py
index 6808eb1..5e9a4f1 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -238,7 +238,8 @@ class Session(object):
                                             stdout_filepath=rpc_log_filepath,
                                             socket_log=socket_log,
                                             stream_handler=stream_handler)
-        self.rpc_server = rpc_server
+        if rpc_server or not self.rpc_server:
+            self.rpc_server = rpc_server
 
     def shutdown_rpc_server(self):
         """Attempts to close THIS session's rpc server, if this session
-- 
2.43.0


From c4b86cc57e817c2de47955924b37eeaaad85ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 38/77] fix: leave nothing behind when the rpc server does not
 start

A server that did not answer in time kept running, the verbosity of the
environment stayed changed when it was not set before (and on every failure),
and the log file handle was never closed.
---
 nxt/session.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 5e9a4f1..eb81709 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -279,6 +279,7 @@ class RPCServerProcess(object):
         directed to a socket handler.
         """
         self.terminal = None
+        self._log_handle = None
         self.use_custom_stdout = use_custom_stdout
         self.server_log_file = stdout_filepath or ''
         self.socket_logging = socket_log
@@ -317,6 +318,26 @@ class RPCServerProcess(object):
             _, port = get_running_server_address(as_str=False)
             raise OSError('Port {} is not available!'.format(port))
         old_env_verbosity = os.environ.get(nxt_log.VERBOSE_ENV_VAR, None)
+        try:
+            self._start_process()
+        except BaseException:
+            if self.terminal:
+                self.terminal.kill()
+                self.terminal.wait()
+                self.terminal = None
+            nxt_log.shutdown_log_socket()
+            raise
+        finally:
+            if self._log_handle:
+                self._log_handle.close()
+                self._log_handle = None
+            if old_env_verbosity is not None:
+                os.environ[nxt_log.VERBOSE_ENV_VAR] = old_env_verbosity
+            else:
+                os.environ.pop(nxt_log.VERBOSE_ENV_VAR, None)
+        return True
+
+    def _start_process(self):
         if self.socket_logging:
             os.environ[nxt_log.VERBOSE_ENV_VAR] = 'socket'
         if self.use_custom_stdout:
@@ -324,15 +345,13 @@ class RPCServerProcess(object):
                 _ext = '.nxtlog'
                 self.server_log_file = nxt_io.generate_temp_file(suffix=_ext)
                 nxt_log.track_log_file(self.server_log_file)
-            server_log_handle = open(self.server_log_file, 'w')
+            self._log_handle = open(self.server_log_file, 'w')
             nxt_log.startup_log_socket(stream_handler=self.stream_handler)
-        else:
-            server_log_handle = None
         call = [sys.executable, '-m', 'nxt.remote.server', self.server_log_file]
         logger.debug("Calling: ")
         logger.debug(str(call))
-        self.terminal = subprocess.Popen(call, stdout=server_log_handle,
-                                         stderr=server_log_handle)
+        self.terminal = subprocess.Popen(call, stdout=self._log_handle,
+                                         stderr=self._log_handle)
         count = 0
         while count < self.STARTUP_TIMEOUT:
             logger.debug('Waiting on rpc server...')
@@ -340,12 +359,9 @@ class RPCServerProcess(object):
             count += 1
             if self.is_running():
                 break
-        if count == self.STARTUP_TIMEOUT:
+        else:
             raise OSError('Failed to start RPC server!')
         logger.debug('rpc server started')
-        if old_env_verbosity is not None:
-            os.environ[nxt_log.VERBOSE_ENV_VAR] = old_env_verbosity
-        return True
 
     def is_running(self):
         """Attempts to connect to the rpc server as a client, if that fails
-- 
2.43.0


From 3f19f9f5c743742e9af49bec6f3eb35e38b7bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 39/77] fix: end the rpc server's process when it cannot be
 told to shut down

The check only knew the error number Windows uses for a refused connection.
---
 nxt/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index eb81709..0e48012 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -392,8 +392,8 @@ class RPCServerProcess(object):
         try:
             proxy = NxtClient()
             proxy.kill()
-        except Exception as e:
-            if getattr(e, 'errno', -1) == 10061 and self.terminal:
+        except Exception:
+            if self.terminal:
                 try:
                     logger.info('Telling rpc server to shutdown...')
                     proxy = NxtClient()
-- 
2.43.0


From ab3e4586b024284ea607fdff793e4945727ea392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 40/77] fix: close the socket that probes the rpc port on every
 path

---
 nxt/session.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 0e48012..cd6d59c 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -415,10 +415,12 @@ class RPCServerProcess(object):
         """Checks if the rpc port is occupied.
         :return: bool
         """
-        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         address = get_running_server_address(as_str=False)
-        results = s.connect_ex(address)
-        s.close()
+        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+        try:
+            results = s.connect_ex(address)
+        finally:
+            s.close()
         if results == 0:
             return False
         return True
-- 
2.43.0


From bbce9e0e73507a00fe46f26b2e99381e9dba8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 41/77] fix: close the log file of a stopped session log

---
 nxt/nxt_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 1327939..39fabec 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -268,11 +268,12 @@ def stop_session_log(filename):
     :param filename: filename to stop outputting to.
     :type filename: str, required
     """
-    handler = SESSION_LOG_HANDLERS.get(filename)
+    handler = SESSION_LOG_HANDLERS.pop(filename, None)
     if not handler:
         return
     root_logger = logging.getLogger('nxt')
     root_logger.removeHandler(handler)
+    handler.close()
 
 
 def make_link(value):
-- 
2.43.0


From 605034fcc2c16488e362623c984303f4ae6b3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 42/77] fix: close the logging server once it stops serving

---
 nxt/nxt_log.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 39fabec..7764f0c 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -361,6 +361,7 @@ class LogRecordSocketReceiver(SocketServer.ThreadingTCPServer):
             if rd:
                 self.handle_request()
             abort = self.abort
+        self.server_close()
 
 
 record_receiver = None
-- 
2.43.0


From 47b19946db7e67dd2a1ea9e9f4cd7c3eb6314e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 43/77] fix: close the source files of loaded plugins

---
 nxt/plugin_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/plugin_loader.py b/nxt/plugin_loader.py
index 278fd02..eaaa2da 100644
--- a/nxt/plugin_loader.py
+++ b/nxt/plugin_loader.py
@@ -27,6 +27,10 @@ def load_plugins():
                 found = imp.find_module(mod_name, [plugin_dir])
             except ImportError:
                 continue
-            mod = imp.load_module(mod_name, *found)
+            try:
+                mod = imp.load_module(mod_name, *found)
+            finally:
+                if found[0]:
+                    found[0].close()
             _nxt_loaded_plugin_module_names += [mod_name]
             _nxt_loaded_plugin_modules += [mod]
-- 
2.43.0


From 9145db27602119643ed27dbe506da4bc54746a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 44/77] fix: put the socket timeout back when the handshake
 fails

---
 nxt/remote/nxt_socket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index bd3ed3c..b6e51bb 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -286,7 +286,8 @@ class IPCWait(object):
             logger.exception('Failed to receive data from server! Try '
                              'toggling the command port.')
             return
-        self.server.settimeout(None)
+        finally:
+            self.server.settimeout(None)
         # logger.debug('Server gave okay msg: {}'.format(okay))
         if not okay:
             logger.error('Failed to handshake!')
-- 
2.43.0


From e898123e6c432587b44d522fe2d637216f447af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 45/77] fix: close the command socket when connecting fails

---
 nxt/remote/nxt_socket.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index b6e51bb..4a24408 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -45,7 +45,11 @@ def setup():
     """
     s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
     s.setblocking(1)
-    s.connect((HOST, COM_PORT))
+    try:
+        s.connect((HOST, COM_PORT))
+    except BaseException:
+        s.close()
+        raise
     logger.socket('Connected to: {}:{}'.format(HOST, COM_PORT))
     global __nxt_server__
     __nxt_server__ = s
-- 
2.43.0


From 22c9adb623eec686058218e3af18004bc71cdce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 46/77] fix: close the socket that finds a free port

---
 nxt/remote/server.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index b494938..051838e 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -175,9 +175,12 @@ class ServerFunctions(object):
 def secure_address():
     server_info_filepath = get_server_info_filepath()
     s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-    s.bind(('', 0))
-    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
-    _, port = s.getsockname()
+    try:
+        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+        s.bind(('', 0))
+        _, port = s.getsockname()
+    finally:
+        s.close()
     with open(server_info_filepath, 'w+') as fp:
         fp.write('localhost' + '\n')
         fp.write(str(port))
-- 
2.43.0


From 8f4b7f7d7cb2ddfa06d3dc9afb611a73c91e640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 47/77] fix: close the rpc server once it stops serving

---
 nxt/remote/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 051838e..5a7f51d 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -199,7 +199,10 @@ def run_server(address=None, log_requests=False):
     server.allow_reuse_address = True
     logger.info('Threaded nxt rpc server started!')
     logger.debug('Listening on:  {}'.format(address))
-    server.serve_forever()
+    try:
+        server.serve_forever()
+    finally:
+        server.server_close()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From a44589b373e4c431291d3f0f504f78f69bfb0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:04 +0000
Subject: [PATCH 48/77] fix: send text headers over the command socket as bytes

---
 nxt/remote/nxt_socket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index 4a24408..8472de4 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -256,7 +256,7 @@ def send_to_server(data_dict):
         logger.error("No server! Try toggling the command port.")
         return
     msg = pickle.dumps(data_dict)
-    header = bytes("{:<{}}".format(len(msg), HEADER_SIZE))
+    header = "{:<{}}".format(len(msg), HEADER_SIZE).encode()
     data = header + msg
     # logger.debug('Size of data: {}'.format(sys.getsizeof(data)))
     try:
-- 
2.43.0


From f78c38bd49ee13b7a659c04ff5b276ec4aa19c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:04 +0000
Subject: [PATCH 49/77] fix: tell a stale command socket from errors without a
 number

---
 nxt/remote/nxt_socket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index 8472de4..c65c957 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -262,7 +262,7 @@ def send_to_server(data_dict):
     try:
         __nxt_server__.sendall(data)
     except Exception as e:
-        if e.errno == 10053:  # Stale socket
+        if getattr(e, 'errno', None) == 10053:  # Stale socket
             __nxt_server__ = None
         else:
             logger.exception('Failed to send data to socket server!')
-- 
2.43.0


From e683ce533e84e1f4df3c87445014d9afa0916fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 50/77] fix: keep the verbosity that was set last in force

---
 nxt/nxt_log.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 7764f0c..4fc7e31 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -200,6 +200,7 @@ def set_verbosity(level):
         if not verbose_handler:
             return
         root_logger.removeHandler(verbose_handler)
+        verbose_handler = None
         return
     if level > 0:
         if verbose_handler:
@@ -208,6 +209,8 @@ def set_verbosity(level):
             stderr_handler = logging.StreamHandler(sys.stderr)
             stderr_handler.setFormatter(nxt_formatter)
             root_logger.addHandler(stderr_handler)
+            verbose_handler = stderr_handler
+        stderr_handler.setLevel(logging.NOTSET)
         if level == 1:
             stderr_handler.setLevel(EXECINFO)
         return stderr_handler
-- 
2.43.0


From 6c2e0e7f957df0f959b864ce7629ebc14f0fc79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 51/77] fix: log once to a session log that is made again

---
 nxt/nxt_log.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 4fc7e31..08c3854 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -232,6 +232,7 @@ def make_session_log(filename=None):
     logger = logging.getLogger(__name__)
     if not filename:
         filename = get_new_session_log_filename()
+    stop_session_log(filename)
     file_handler = logging.FileHandler(filename)
     file_handler.setFormatter(nxt_formatter)
     root_logger = logging.getLogger('nxt')
-- 
2.43.0


From b883c8124a8cc5e494d3dd34727da92198a754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 52/77] fix: let an interrupt end the process while a server is
 shut down

---
 nxt/session.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index cd6d59c..437b538 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -252,7 +252,7 @@ class Session(object):
         logger.debug('Trying to shutdown rpc server...')
         try:
             self.rpc_server.terminate()
-        except:
+        except Exception:
             logging.exception('Failed to shut down rpc server!')
             pass
         self.rpc_server = None
@@ -399,14 +399,14 @@ class RPCServerProcess(object):
                     proxy = NxtClient()
                     proxy.kill()
                     self.server_log_file = ''
-                except:
+                except Exception:
                     logger.warning(
                         'Unable to tell rpc server to shutdown!')
                 try:
                     self.terminal.terminate()
                     self.terminal = None
                     logger.debug('RPC server has shutdown!')
-                except:
+                except Exception:
                     logger.warning('Unable to kill rpc process!')
         nxt_log.shutdown_log_socket()
 
-- 
2.43.0


From 7b1034880f81da674cda0aa47df706db8fb430cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 53/77] fix: let an interrupt through while a server log is
 removed

---
 nxt/remote/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 5a7f51d..f45aa5c 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -165,7 +165,7 @@ class ServerFunctions(object):
                     logger.debug('Removing server log file: '
                                  '{}'.format(self.log_filepath))
                     os.remove(self.log_filepath)
-                except:
+                except Exception:
                     logger.warning('Failed to remove server log file, '
                                    'if it was an autogenerated file nxt_log '
                                    'will remove it when determined it is '
-- 
2.43.0


From dda7d125a948d7e67f7d672a8397ccb28821d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:54 +0000
Subject: [PATCH 54/77] fix: skip references that lead back to a layer being
 loaded

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index e3bb29d..2496cbc 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -382,6 +382,9 @@ class Stage:
                 for dat in bad_layer_dat:
                     parent_layer.sub_layers.remove(dat)
                 continue
+            if self.check_for_layer_ref_cycle(parent_layer,
+                                              layer_data['real_path']):
+                continue
             self.load_from_file(layer_data, parent_layer=parent_layer)
 
     def get_layer_save_data(self, layer_idx):
-- 
2.43.0


From 170609de28e933139e65cd542b2559955397a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:54 +0000
Subject: [PATCH 55/77] fix: find instance targets of nodes that instance each
 other

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 2496cbc..4891e5a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3493,6 +3493,8 @@ class Stage:
                 continue
             if inst_path != inst_source_path:
                 continue
+            if self.get_node_spec(node) in target_list:
+                continue  # Cyclic instances, each target is listed once
             target_list += [self.get_node_spec(node)]
             node_path = comp_layer.get_node_path(node)
             self.get_instance_targets(node_path, target_list, comp_layer)
-- 
2.43.0


From 9c65cf1c70fcae39118fd2b8405436263fd7d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 56/77] fix: build stages where nodes instance each other from
 inside

---
 nxt/stage.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 4891e5a..dc934d2 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3030,6 +3030,10 @@ class Stage:
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return to_do
+        if Stage.instances_ancestor(node_path, comp_node, comp_layer):
+            logger.error('{} attempted to instance an ancestor!'
+                         ''.format(node_path), links=[node_path])
+            return to_do
         dirties = comp_layer.get_node_dirties(node_path)
         if real_inst_path in dirties:
             logger.error('{} attempted to instance dependant!'
@@ -3300,6 +3304,25 @@ class Stage:
         self.update_inherited_attrs(comp_node, comp_layer, arcs)
         return dirties
 
+    @staticmethod
+    def instances_ancestor(node_path, comp_node, comp_layer):
+        """Checks the whole instance trace of the given node for its own
+        ancestors, instancing one would never end.
+
+        :return: bool
+        """
+        prev_path = None
+        for source in Stage.get_instance_sources(comp_node, [], comp_layer):
+            source_path = comp_layer.get_node_path(source)
+            if source_path == nxt_path.WORLD:
+                return False
+            if prev_path and nxt_path.is_ancestor(prev_path, source_path):
+                return False  # Not instanced either
+            if nxt_path.is_ancestor(node_path, source_path):
+                return True
+            prev_path = source_path
+        return False
+
     @staticmethod
     def instance_is_possible(node_path, comp_node, comp_layer,
                              namespace=None):
@@ -3325,6 +3348,10 @@ class Stage:
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return
+        if Stage.instances_ancestor(node_path, comp_node, comp_layer):
+            logger.error('{} attempted to instance an ancestor!'
+                         ''.format(node_path), links=[node_path])
+            return
         dirties = comp_layer.get_node_dirties(node_path)
         if real_inst_path in dirties:
             logger.error('{} attempted to instance dependant!'
-- 
2.43.0


From c9bd81645ab3d0955e485200f0fa6731a2f803b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 57/77] fix: skip references back to a layer when it is added
 as a sub layer

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index dc934d2..b418ce4 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -260,6 +260,8 @@ class Stage:
             file_path = ref[SAVE_KEY.FILEPATH]
             d = os.path.dirname(layer_data[SAVE_KEY.REAL_PATH])
             real_file_path = nxt_path.full_file_expand(file_path, d)
+            if self.check_for_layer_ref_cycle(new_sublayer, real_file_path):
+                continue
             deep_sub_layer_data = nxt_io.load_file_data(real_file_path)
             deep_sub_layer_data['parent_layer'] = new_sublayer
             deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
-- 
2.43.0


From c900a8616d805be4b0ecf57293920cc9c87aa230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 58/77] fix: delete nodes whose instance trace is cyclic

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b418ce4..0eed93a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1018,7 +1018,9 @@ class Stage:
             kill = True
             if dirty_node_inst_path:
                 inst_source = comp_layer.lookup(dirty_node_inst_path)
-                while inst_source:
+                seen = []
+                while inst_source and inst_source not in seen:
+                    seen += [inst_source]
                     if inst_source is comp_node:
                         break
                     kill = getattr(inst_source, INTERNAL_ATTRS.PROXY)
-- 
2.43.0


From d4d174c3e2e9c759670562b4e3bfa31b4a252aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 59/77] fix: change an instance path that could not be
 instanced

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 0eed93a..aeb5cd2 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3273,7 +3273,7 @@ class Stage:
             arc_src_path = getattr(comp_node, internal_attr, None)
             base = comp_layer.lookup(arc_src_path)
             cur_bases = list(comp_node.__bases__)
-            if base:
+            if base in cur_bases:
                 cur_bases.remove(base)
             if arc == CompArc.INSTANCE:
                 path = comp_layer.get_node_path(comp_node)
-- 
2.43.0


From b0c2c8eba51b51f5c70987b28ac7bf511b1fba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 60/77] fix: point every reference of a temp copy at the copied
 layers

---
 nxt/stage.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index aeb5cd2..63e3bc2 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4088,8 +4088,7 @@ class Stage:
             cwd = layer.get_cwd()
             save_data[SAVE_KEY.CWD] = cwd
             refs = save_data.get(SAVE_KEY.REFERENCES, [])
-            idx = 0
-            for ref in refs:
+            for idx, ref in enumerate(refs):
                 ref_file_name = os.path.basename(ref)
                 if ref_file_name == ref:
                     continue
@@ -4098,7 +4097,6 @@ class Stage:
                     if path == ref:
                         comp_overs[ref_file_name] = comp_overs.pop(ref)
                 refs[idx] = ref_file_name
-                idx += 1
             file_name = os.path.basename(layer.real_path)
             temp_path = os.path.join(output_dir, file_name)
             nxt_io.save_file_data(save_data, temp_path)
-- 
2.43.0


From 7b3e322d3fdf23f9aa68f1ac8dc0dbc733aa812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:02 +0000
Subject: [PATCH 61/77] fix: remove lock overrides from the lock overrides

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 6d4df54..13c318a 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -822,7 +822,7 @@ class SpecLayer(object):
         if not root:
             logger.error('Can not set colors override on top layer!')
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
-- 
2.43.0


From e561bcecd93c8b0fe923519d98a9fd2e326a30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:02 +0000
Subject: [PATCH 62/77] fix: refuse overrides on the top layer without failing

---
 nxt/nxt_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 13c318a..a0a7c2a 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -759,6 +759,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set alias override on top layer!')
+            return
         if alias is None:
             if layer_path in list(root.aliases.keys()):
                 root.aliases.pop(layer_path)
@@ -787,6 +788,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if color is None:
             if layer_path in list(root.colors.keys()):
                 root.colors.pop(layer_path)
@@ -821,6 +823,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if lock is None:
             if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
-- 
2.43.0


From 01b65063bbf509bdf376884ef98f4d4bbecde2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 63/77] fix: removing a comp node does not edit the child order
 of a layer

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 63e3bc2..1f21dda 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -993,7 +993,10 @@ class Stage:
             except AttributeError:
                 child_order = []
             if parent_node is not None and name in child_order:
+                # The list may be the one of a layer's node
+                child_order = child_order[:]
                 child_order.remove(name)
+                setattr(parent_node, INTERNAL_ATTRS.CHILD_ORDER, child_order)
         if rm_layer_data:
             if path in list(comp_layer.collapse.keys()):
                 comp_layer.collapse.pop(path)
-- 
2.43.0


From 58ecd7d1c453b0c554c7bee27f2a085a9918146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:31 +0000
Subject: [PATCH 64/77] fix: nodes data is transferred to do not share it with
 the source

---
 nxt/stage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1f21dda..ab5f769 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1404,7 +1404,7 @@ class Stage:
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
             if internal_attr is INTERNAL_ATTRS.COMPUTE:
                 attr_key = 'code'  # TODO: Refactor see #656
-            val = node_data.get(attr_key)
+            val = copy.copy(node_data.get(attr_key))
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
                 setattr(node, internal_attr, val)
@@ -1413,7 +1413,7 @@ class Stage:
         # Un-tracked attrs
         for internal_attr in INTERNAL_ATTRS.UNTRACKED:
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
-            val = node_data.get(attr_key)
+            val = copy.copy(node_data.get(attr_key))
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
                 setattr(node, internal_attr, val)
-- 
2.43.0


From ff3abf5eb4e659b09f6ea3a63b6112c444493b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:31 +0000
Subject: [PATCH 65/77] fix: the data of a node is a copy

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index ab5f769..9ff7685 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1772,7 +1772,7 @@ class Stage:
             if internal_attr in INTERNAL_ATTRS.BUILTINS:
                 continue
             try:
-                val = getattr(node, internal_attr)
+                val = copy.copy(getattr(node, internal_attr))
             except AttributeError:
                 val = None
             if (has_opinion(val) or internal_attr in
-- 
2.43.0


From 36bb9149afc6b4f559f40c2c814869b5114f7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:31 +0000
Subject: [PATCH 66/77] fix: adding a node does not write in the data it is
 given

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9ff7685..7ee4a8d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -656,7 +656,7 @@ class Stage:
                                              layer=comp_layer or layer,
                                              parent_path=parent_path,
                                              layer_only=bool(comp_layer))
-        data = data or {}
+        data = copy.copy(data) or {}
         data['name'] = name
         if do_targeted_comp:
             key = INTERNAL_ATTRS.as_save_key(INTERNAL_ATTRS.CHILD_ORDER)
-- 
2.43.0


From 35ca8fadabaf2d46aa76ca9a0c4dccf0680a4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:31 +0000
Subject: [PATCH 67/77] fix: cached child paths are handed out as a copy

---
 nxt/nxt_layer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index a0a7c2a..b3baa2c 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -423,8 +423,9 @@ class SpecLayer(object):
         :return: List of node paths or None
         :rtype: list | None
         """
-        return self._cached_children.get(parent_path,
-                                         {}).get(LayerReturnTypes.Path)
+        paths = self._cached_children.get(parent_path,
+                                          {}).get(LayerReturnTypes.Path)
+        return paths if paths is None else paths[:]
 
     def descendants(self, node_path=nxt_path.WORLD,
                     return_type=LayerReturnTypes.Path, ordered=False,
-- 
2.43.0


From 548d4a1fcaedbb7122c593633ea23a5078c6ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:31 +0000
Subject: [PATCH 68/77] fix: a child order that is set is copied

---
 nxt/stage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7ee4a8d..be22eff 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3619,6 +3619,7 @@ class Stage:
                          links=[node_path])
             return
         old_child_order = self.get_node_child_order(node)
+        child_order = copy.copy(child_order)
         setattr(node, INTERNAL_ATTRS.CHILD_ORDER, child_order)
         if not comp_layer:
             return dirty
-- 
2.43.0


From 4ac8772463a33ed2a2484dc94360fd570cac277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:31 +0000
Subject: [PATCH 69/77] fix: save data does not share unknown meta data with
 the layer

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index b3baa2c..233e0fb 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -868,7 +868,7 @@ class SpecLayer(object):
         aliases = OrderedDict(sorted(self.aliases.items(), key=lambda x: x[0]))
         colors = OrderedDict(sorted(self.colors.items(), key=lambda x: x[0]))
         locks = OrderedDict(sorted(self.locks.items(), key=lambda x: x[0]))
-        meta_data = OrderedDict(self._input_metadata)
+        meta_data = OrderedDict(copy.deepcopy(self._input_metadata))
         if aliases:
             meta_data[META_DATA_KEY.ALIASES] = aliases
         if colors:
-- 
2.43.0


From 2388667d0686db2167f0ff986d89ad314bd6dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 70/77] fix: reading a log record ends when its sender goes
 away part way

---
 nxt/nxt_log.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 08c3854..df977bc 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -313,7 +313,10 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
             slen = struct.unpack('>L', chunk)[0]
             chunk = self.connection.recv(slen)
             while len(chunk) < slen:
-                chunk = chunk + self.connection.recv(slen - len(chunk))
+                more = self.connection.recv(slen - len(chunk))
+                if not more:
+                    return
+                chunk = chunk + more
             obj = self.un_pickle(chunk)
             level_name = obj.get('levelname')
             if level_name:
-- 
2.43.0


From f30b0a6caed5a4b28d0d45e5416d822b8dc07978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 71/77] fix: converting a graph saved by a newer minor version
 ends

---
 nxt/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 2d05a99..00ace0c 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -39,7 +39,7 @@ class FileConverter(object):
             if FILE_VERSIONS.get(v):
                 converter = FILE_VERSIONS[v]
                 self.file_data = converter.get_converted(self.file_data)
-            if v == nxt_version:
+            if v >= nxt_version:
                 break
             # Step version number by 1
             v += 1
-- 
2.43.0


From 082c304bcf5f1e753fee911c0aa2ec9cf0b9bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:01 +0000
Subject: [PATCH 72/77] fix: an unused graph name is found for an empty name
 too

---
 nxt/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 437b538..41f1452 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -55,10 +55,10 @@ class Session(object):
                     return False
             return True
 
-        result_name = ''
+        result_name = None
         num_suffix = 0
         potential_name = name
-        while result_name == '':
+        while result_name is None:
             if test_name(potential_name):
                 result_name = potential_name
             else:
-- 
2.43.0


From 2cd769b6c7d70000a7094aa3cb8313ff46bb3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:01 +0000
Subject: [PATCH 73/77] fix: removing a layer removes every layer it references

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index be22eff..af5abde 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -278,7 +278,7 @@ class Stage:
             layer = self._sub_layers[layer]
         file_path = layer.filepath
         layer_data = layer.sub_layers
-        for remove_sub_data in layer_data:
+        for remove_sub_data in layer_data[:]:
             layer_data.remove(remove_sub_data)
             ref_layer = remove_sub_data.get('layer')
             if not ref_layer:
-- 
2.43.0


From 28b603048e13fd4a1138ad66b4ad5467f4071fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:35 +0000
Subject: [PATCH 74/77] fix: a new node in a muted layer took the path of
 another

---
 nxt/stage.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index af5abde..8b815a3 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -433,7 +433,7 @@ class Stage:
         return re.sub(pattern, '_', name)
 
     def get_unique_node_name(self, name, layer, parent_path=None,
-                             layer_only=False):
+                             layer_only=False, target_layer=None):
         """Get an unused node name. If given a name preference, the resulting
         name will increment an integer if needed to create a unique name. If
         layer only is False and the layer provided is not a comp layer a
@@ -452,6 +452,9 @@ class Stage:
         :type parent_path: str
         :param layer_only: If false a new comp layer will be created (slow)
         :type layer_only: bool
+        :param target_layer: Layer that will hold the node, if it is not the
+        layer given. The comp does not show its nodes if it is not active.
+        :type target_layer: SpecLayer
         :return: an unused node name.
         :rtype: str
         """
@@ -464,10 +467,11 @@ class Stage:
                 name = name + '1'
         else:
             name = 'node'
+        target_layer = target_layer or layer
         if not layer_only and not isinstance(layer, CompLayer):
             layer = self.build_stage(from_idx=0)
         test_path = nxt_path.join_node_paths(parent_path, name)
-        if not layer.lookup(test_path):
+        if not (layer.lookup(test_path) or target_layer.lookup(test_path)):
             # Already unique
             return name
         # Find valid name by incrementing trailing number as needed.
@@ -475,7 +479,7 @@ class Stage:
         test_name = name
         while True:
             test_ns = nxt_path.join_node_paths(parent_path, test_name)
-            if not layer.lookup(test_ns):
+            if not (layer.lookup(test_ns) or target_layer.lookup(test_ns)):
                 break
             trailing_num += 1
             test_name = name + str(trailing_num)
@@ -655,7 +659,8 @@ class Stage:
             name = self.get_unique_node_name(name=name,
                                              layer=comp_layer or layer,
                                              parent_path=parent_path,
-                                             layer_only=bool(comp_layer))
+                                             layer_only=bool(comp_layer),
+                                             target_layer=layer)
         data = copy.copy(data) or {}
         data['name'] = name
         if do_targeted_comp:
@@ -1341,7 +1346,8 @@ class Stage:
             # Get the comp layer as the scope where possible to avoid re-comp
             scoped_layer = comp_layer or layer
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
-                                             parent_path=parent_path)
+                                             parent_path=parent_path,
+                                             target_layer=layer)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
-- 
2.43.0


From dc4259874a7479503f3f9f3cce71ff551ce32f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:35 +0000
Subject: [PATCH 75/77] fix: a new attribute in a muted layer took the place of
 another

---
 nxt/stage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8b815a3..c3165b1 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -520,6 +520,10 @@ class Stage:
         test_name = attr_name
         while True:
             illegal_names = tuple(get_node_local_attr_names(node_path, layers))
+            if len(layers) == 1:
+                # Inactive layers are left out by the function above
+                node = layers[0].lookup(node_path)
+                illegal_names += tuple(node.__dict__) if node else ()
             illegal_names += INTERNAL_ATTRS.PROTECTED
             if test_name not in illegal_names:
                 break
-- 
2.43.0


From 27d79768dca381e1993bf3f3bcc878f8039d3197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:55 +0000
Subject: [PATCH 76/77] fix: attributes in a layer that is not active were
 taken to be missing when edited

---
 nxt/nxt_layer.py |  7 ++++---
 nxt/stage.py     | 15 ++++++++-------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 233e0fb..99e9634 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1131,11 +1131,12 @@ def get_muted_layers(layers):
     return [layer for layer in layers if layer.get_muted()]
 
 
-def get_node_local_attr_names(node_path, layers):
+def get_node_local_attr_names(node_path, layers, active_only=True):
     """Get all attribute names that are local to the given node path within
     the given layers.
 
-    NOTE that layers are filtered to active layers.
+    NOTE that layers are filtered to active layers, unless active_only is
+    false.
 
     :param node_path: node path to find local attributes of
     :type node_path: str
@@ -1146,7 +1147,7 @@ def get_node_local_attr_names(node_path, layers):
     """
     local_attrs = []
     # TODO should we filter for active layers or expect callers to?
-    active_layers = get_active_layers(layers)
+    active_layers = get_active_layers(layers) if active_only else layers
     for layer in active_layers:
         node = layer.lookup(node_path)
         if not node:
diff --git a/nxt/stage.py b/nxt/stage.py
index c3165b1..c05df9d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -506,6 +506,8 @@ class Stage:
 
         # handle attr_name collisions with other attributes on the given node
         # by appending a digit
+        # A layer that is edited has its attributes whether it is active or not
+        active_only = isinstance(layer, CompLayer)
         if isinstance(layer, CompLayer):
             s, e = layer._layer_range
             layers = self._sub_layers[s:e]
@@ -519,11 +521,8 @@ class Stage:
             num_suffix = 1
         test_name = attr_name
         while True:
-            illegal_names = tuple(get_node_local_attr_names(node_path, layers))
-            if len(layers) == 1:
-                # Inactive layers are left out by the function above
-                node = layers[0].lookup(node_path)
-                illegal_names += tuple(node.__dict__) if node else ()
+            illegal_names = tuple(get_node_local_attr_names(node_path, layers,
+                                                            active_only))
             illegal_names += INTERNAL_ATTRS.PROTECTED
             if test_name not in illegal_names:
                 break
@@ -1297,7 +1296,8 @@ class Stage:
         new_name = self.get_unique_attr_name(node_path, layer,
                                              attr_name=new_attr_name)
         # rename
-        if attr_name in get_node_local_attr_names(node_path, [layer]):
+        if attr_name in get_node_local_attr_names(node_path, [layer],
+                                                  active_only=False):
             setattr(node, new_name, getattr(node, attr_name))
             delattr(node, attr_name)
             for meta_attr_suffix in self.meta_attrs:
@@ -1435,7 +1435,8 @@ class Stage:
     def node_setattr_data(self, node, attr, layer, create, comp_layer=None,
                           **values):
         node_path = layer.get_node_path(node)
-        local_attrs = tuple(get_node_local_attr_names(node_path, [layer]))
+        local_attrs = tuple(get_node_local_attr_names(node_path, [layer],
+                                                      active_only=False))
         value_set = False
         dirties = []
         if attr == INTERNAL_ATTRS.NAME:
-- 
2.43.0


From 35c2ec18cd82ab11b1c9a4c2bf330b30fe5b40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:46 +0000
Subject: [PATCH 77/77] fix: a save whose data can not be serialized returned
 as if it was done

---
 nxt/nxt_layer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 99e9634..97a3f55 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -848,9 +848,7 @@ class SpecLayer(object):
             json.dumps(save_data, indent=4, sort_keys=False)
         except TypeError:
             logger.error("Failed to save file!")
-            # TODO: Should raise here, but its out of scope for what I'm
-            #  working on right now.
-            return
+            raise
         logger.info("Save Data Generated")
         nxt_io.save_file_data(save_data=save_data, filepath=filepath)
         if untitled:
-- 
2.43.0

