From 1bf2d0c8315a3fedb5c5458755e2f18378d735e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:24 +0000
Subject: [PATCH 01/27] fix: order spine versions lexicographically

3.7.93 was neither < nor >= 3.8 and 4.0 was not >= 3.8 because every
component was compared on its own.
---
 spine_json_lib/data/spine_version_type.py | 32 +++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index 2f707ca..c84d8f6 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -48,40 +48,40 @@ class SpineVersion(object):
         # operator <
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major < _other.major
-            and self.minor < _other.minor
-            and self.patch < _other.patch
+        return (self.major, self.minor, self.patch) < (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __gt__(self, other):
         # operator >
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major > _other.major
-            and self.minor > _other.minor
-            and self.patch > _other.patch
+        return (self.major, self.minor, self.patch) > (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __le__(self, other):
         # operator <=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major <= _other.major
-            and self.minor <= _other.minor
-            and self.patch <= _other.patch
+        return (self.major, self.minor, self.patch) <= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __ge__(self, other):
         # operator >=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major >= _other.major
-            and self.minor >= _other.minor
-            and self.patch >= _other.patch
+        return (self.major, self.minor, self.patch) >= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __cmp__(self, other):
-- 
2.43.0


From 7fd4420d5d1450cd3af66826e51b9b47ce086108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:28 +0000
Subject: [PATCH 02/27] fix: allow writing output files into the current
 directory

os.path.dirname('out.json') is '' and os.makedirs('') raises.
---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..6b17604 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -218,7 +218,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -254,7 +254,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From d2cf96cd540cfbc93eae8fae9c38ce7e4c7444e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:33 +0000
Subject: [PATCH 03/27] fix: return an integer from SpamNode.__hash__ so nodes
 can be hashed

---
 spine_json_lib/graph/spamnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/spamnode.py b/spine_json_lib/graph/spamnode.py
index f287590..f4d205c 100644
--- a/spine_json_lib/graph/spamnode.py
+++ b/spine_json_lib/graph/spamnode.py
@@ -48,7 +48,7 @@ class SpamNode(object):
 
     def __hash__(self):
         """ Used for finding the collision chain for this node."""
-        return self._id
+        return hash(self._id)
 
     @property
     def id(self) -> str:
-- 
2.43.0


From 9186693b69348338eecd3a20b36f6deae195b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:33 +0000
Subject: [PATCH 04/27] fix: compare root node types by value, not by string
 identity

A graph whose node types are not interned strings (e.g. read from a file)
was reported as unconnected.
---
 spine_json_lib/graph/graph_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index c90794c..6fd8a5c 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -72,7 +72,7 @@ class GraphValidator(object):
             # Check if there are any head and it is not a root of the UCGraph
             if (
                 graph.get_node(head_id).node_type
-                is not UCNodeType.INPUT_ROOT_NODE_TYPE.name
+                != UCNodeType.INPUT_ROOT_NODE_TYPE.name
             ):
                 unconnected_nodes.append(head_id)
                 continue
-- 
2.43.0


From 4d0efddee9faeec7dedb80072caebe0a4780cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:50 +0000
Subject: [PATCH 05/27] fix: never list a node before the nodes it depends on

With h->n, p->n, p->c, n->c the order was h, p, c, n, p: c came before its
parent n, and p was listed twice.
---
 spine_json_lib/graph/dagraph.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 040ac62..ca8f690 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -215,15 +215,12 @@ class DAGraph(object):
 
         def visit(node: SpamNode) -> None:
             visited.add(node.id)
-
-            for parent in node.parents:
-                if parent not in visited:
-                    visit(self.get_node(parent))
-
             result_nodes.append(node.id)
-            for child in node.children:
-                if child not in visited:
-                    visit(self.get_node(child))
+
+            for child_id, child in node.children.items():
+                # A child is ready when all the nodes it depends on are in the result
+                if child_id not in visited and visited.issuperset(child.parents):
+                    visit(child)
 
         for head_id in self.get_heads_id():
             visit(self.get_node(head_id))
-- 
2.43.0


From 775a3d573e7322dc4a51282333d93b2389edcf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 06/27] fix: only strip the type suffix at the end of a graph
 id

A leaf slot called 'a_SLOT' was turned into 'a', so slot 'a' lost its
attachments instead.
---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..4251e09 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -331,4 +331,4 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        return graph_id[: -len(_suffix)] if graph_id.endswith(_suffix) else graph_id
-- 
2.43.0


From 5898e1d5038a5387e00e0e4246c4720543c7c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 07/27] fix: clean animations in which no slot is visible nor
 animated

reduce() of an empty iterable raised a TypeError.
---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..e88af30 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -295,7 +295,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
         invisible_slots = slots_set - visible_slots
-- 
2.43.0


From be2aca5e58645b0a63e5c53e691527e34fc28a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 08/27] fix: keep slots whose timeline has no keyframes

A timeline without keyframes shows the setup attachment, but clean_animation
removed such a slot as if it were hidden.
---
 spine_json_lib/data/data_types/slot.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/data/data_types/slot.py b/spine_json_lib/data/data_types/slot.py
index 286fffa..e93664d 100644
--- a/spine_json_lib/data/data_types/slot.py
+++ b/spine_json_lib/data/data_types/slot.py
@@ -87,14 +87,9 @@ class SlotTimeline(SpineData):
         return (
             not self.color
             and not self.twoColor
-            and (
-                len(self.attachment) == 0
-                or (
-                    len(self.attachment) == 1
-                    and self.attachment[0].is_empty()
-                    and self.attachment[0].time == 0
-                )
-            )
+            and len(self.attachment) == 1
+            and self.attachment[0].is_empty()
+            and self.attachment[0].time == 0
         )
 
     def get_used_attachments(self):
-- 
2.43.0


From 757a93d65d41b7a265cd770d540b50594be70978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:43 +0000
Subject: [PATCH 09/27] fix: keep the meshes of visible slots when other
 attachments share their id

Attachments are removed by id, so an unused region or linked mesh with the
same id in another skin took the protected mesh away, leaving the linked
meshes that use it as parent dangling.
---
 spine_json_lib/data/spine_anim_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index e88af30..ced9380 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -301,6 +301,7 @@ class SpineAnimationData(SpineData):
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
+        attachments_to_keep: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
@@ -314,7 +315,10 @@ class SpineAnimationData(SpineData):
                             isinstance(attachment_data[attachment_id], SkinMesh)
                             and slot_id not in invisible_slots
                         ):
+                            attachments_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return invisible_slots, attachments_to_remove
+        # Attachments are removed by id from every slot and skin, so an id has to be
+        # kept if any of the attachments with that id has to be kept
+        return invisible_slots, attachments_to_remove - attachments_to_keep
-- 
2.43.0


From 3ecc71ad64e068329b4e6ddcce36d324a10853bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:04 +0000
Subject: [PATCH 10/27] fix: never remove the target slot of a path constraint

The slot of a path is not drawn, so it looked unused; without it (or its path
attachments) the path constraint is left without a target and the document
cannot be loaded by Spine.
---
 spine_json_lib/data/spine_anim_data.py   | 12 ++++++++++--
 spine_json_lib/spine_animation_editor.py |  5 ++++-
 spine_json_lib/spine_graph_container.py  | 23 +++++++++++++++++------
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index ced9380..560d586 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -190,6 +190,12 @@ class SpineAnimationData(SpineData):
 
         return removed_images, removed_attachments
 
+    def get_path_targets(self) -> FrozenSet[str]:
+        """
+        Return the ids of the slots that path constraints need as target
+        """
+        return frozenset([path.target for path in self.path])
+
     def get_slots_with_alpha_zero(self) -> List[str]:
         """
         Return a list of id of slots with alpha set as 0 on color info attrib
@@ -298,7 +304,9 @@ class SpineAnimationData(SpineData):
                 (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
-        invisible_slots = slots_set - visible_slots
+        # The target of a path constraint is needed even if it is never drawn
+        path_targets = self.get_path_targets()
+        invisible_slots = slots_set - visible_slots - path_targets
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
         attachments_to_keep: FrozenSet[Any] = frozenset([])
@@ -314,7 +322,7 @@ class SpineAnimationData(SpineData):
                         if (
                             isinstance(attachment_data[attachment_id], SkinMesh)
                             and slot_id not in invisible_slots
-                        ):
+                        ) or slot_id in path_targets:
                             attachments_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 6b17604..0f5949c 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -154,7 +154,10 @@ class SpineAnimationEditor(object):
 
         # Removing leaves that are slots, which means
         # they don't have any attachment as children and can be removed from animation
-        leaf_slots = self.spine_graph.remove_leafs_of_type(NodeType.SLOT.name)
+        leaf_slots = self.spine_graph.remove_leafs_of_type(
+            NodeType.SLOT.name,
+            ids_to_keep=self.spine_anim_data.data.get_path_targets(),
+        )
         slots_to_remove = list(slots_to_remove | frozenset(leaf_slots))
 
         # Convert spine graph back to json data
diff --git a/spine_json_lib/spine_graph_container.py b/spine_json_lib/spine_graph_container.py
index e5886cf..364d88b 100644
--- a/spine_json_lib/spine_graph_container.py
+++ b/spine_json_lib/spine_graph_container.py
@@ -44,25 +44,34 @@ class SpineGraphContainer(object):
             root_node = self.get_heads_with_type(node_type=type_name)
         return nodes_removed
 
-    def get_leafs_of_type(self, node_type) -> List[str]:
+    def get_leafs_of_type(self, node_type, ids_to_keep=()) -> List[str]:
         tail_nodes = self.graph.get_tails_id()
 
         leaf_slots = list(
             filter(
-                lambda n: self.graph.get_node(n).node_type == node_type,
+                lambda n: self.graph.get_node(n).node_type == node_type
+                and n not in ids_to_keep,
                 tail_nodes,
             )
         )
 
         return leaf_slots
 
-    def remove_leafs_of_type(self, type_name) -> List[str]:
+    def remove_leafs_of_type(self, type_name, ids_to_keep=()) -> List[str]:
         """
         Removing from graph every node leaves of type @type_name recursively
-        and return the list of ids
+        and return the list of ids. Nodes in @ids_to_keep are never removed
         """
+        graph_ids_to_keep = frozenset(
+            SpineGraphParser._to_graph_id(
+                node_type_name=type_name, node_base_id=base_id
+            )
+            for base_id in ids_to_keep
+        )
         nodes_removed = []
-        leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+        leaf_nodes = self.get_leafs_of_type(
+            node_type=type_name, ids_to_keep=graph_ids_to_keep
+        )
         while leaf_nodes:
             nodes_removed += [
                 SpineGraphParser._to_base_id(
@@ -72,7 +81,9 @@ class SpineGraphContainer(object):
                 for s_id in leaf_nodes
             ]
 
-            leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+            leaf_nodes = self.get_leafs_of_type(
+                node_type=type_name, ids_to_keep=graph_ids_to_keep
+            )
         return nodes_removed
 
     def remove_attachment(self, attachment_id: str) -> SpamNode:
-- 
2.43.0


From 1b1c2a726e507fc02af6ef7beab4e3727513a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:24 +0000
Subject: [PATCH 11/27] fix: leave the document untouched when an erase request
 is rejected

An unknown animation (strict mode) or skin was only reported after the other
ones had been erased, leaving the editor half edited.
---
 spine_json_lib/spine_animation_editor.py | 26 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 0f5949c..32fb07e 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -64,6 +64,16 @@ class SpineAnimationEditor(object):
         return SpineAnimationEditor(json_data=spine_json_data)
 
     def erase_skins(self, skins_to_erase, is_safe_mode=False):
+        # Check that every skin exists before removing any of them
+        skins_to_erase = list(dict.fromkeys(skins_to_erase))
+        for skin_name in skins_to_erase:
+            if self.spine_anim_data.data.get_skin(skin_name) is None:
+                raise SpineJsonEditorError(
+                    message="Trying to remove skin with name {} but was not found".format(
+                        skin_name
+                    )
+                )
+
         images_skins_refs = []
         skin_attachments_removed = {}
         for skin_name in skins_to_erase:
@@ -266,13 +276,11 @@ class SpineAnimationEditor(object):
     def _erase_raw_animations_data(
         self, animations_to_erase: List[str], strict_mode: bool
     ) -> None:
-        # Erasing animation from the json
-        not_found_animations = []
-        for animation_name in animations_to_erase:
-            if animation_name in self.spine_anim_data.data.animations:
-                del self.spine_anim_data.data.animations[animation_name]
-            else:
-                not_found_animations.append(animation_name)
+        not_found_animations = [
+            animation_name
+            for animation_name in animations_to_erase
+            if animation_name not in self.spine_anim_data.data.animations
+        ]
 
         if not_found_animations and strict_mode:
             raise ValueError(
@@ -281,6 +289,10 @@ class SpineAnimationEditor(object):
                 )
             )
 
+        # Erasing animation from the json
+        for animation_name in animations_to_erase:
+            self.spine_anim_data.data.animations.pop(animation_name, None)
+
     def _clean_images_references(self, images_ids: List[str]) -> None:
         copy_json = copy.deepcopy(self.images_references)
         removed_images = []
-- 
2.43.0


From 9b1a393b07b3f05527d1b0a26797b2e1fff56279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 12/27] fix: do not lose changes done before cleaning an
 animation

clean_animation reads bones, slots and ik back from a graph built when the
document was loaded, so scale_animation followed by erase_animations silently
reverted the scale.
---
 spine_json_lib/spine_animation_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 32fb07e..e7bfac8 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -154,6 +154,9 @@ class SpineAnimationEditor(object):
         # Save slots before removing. Needed to recalculate offsets when removing
         # slots in a drawOrder array.
         slots_before_removing = copy.deepcopy(self.spine_anim_data.data.slots)
+        # The graph has to reflect every change done so far to the animation data, as
+        # bones, slots and ik are read back from it.
+        self.spine_graph = SpineGraphContainer(self.spine_anim_data.to_json_data())
         (
             slots_to_remove,
             attachments_to_remove,
-- 
2.43.0


From 28ac065ef417af9eca911391718a641d9bb8bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:49 +0000
Subject: [PATCH 13/27] fix: resolve linked meshes by parent and default skin
 when erasing their skin

The mesh was looked up by the name of the linked mesh instead of its parent
(KeyError or wrong mesh), linked meshes without an explicit skin (default)
were left dangling, and the color of the linked mesh was lost.
---
 spine_json_lib/data/spine_anim_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 560d586..ad26b3e 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -146,20 +146,21 @@ class SpineAnimationData(SpineData):
                 for slot_id, slot_data in attachment_data.items():
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or "default") == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
-- 
2.43.0


From 95aa6802a816e91cdbe9138a3567a8c5a6ba7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 14/27] fix: report images that are named after their
 attachment when erasing a skin

An attachment without path nor name uses its id as image; those images stayed
in images_references, and None was returned for meshes.
---
 spine_json_lib/data/spine_anim_data.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index ad26b3e..be76c96 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -170,12 +170,11 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
-                    if image_path is not None:
-                        removed_attachments.setdefault(attachment_id, {})
-                        removed_attachments[attachment_id][slot_id] = image_path
+                    image_path = slot_data.path or slot_data.name or slot_id
+                    removed_attachments.setdefault(attachment_id, {})
+                    removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = slot_data.path or slot_data.name or slot_id
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
-- 
2.43.0


From 5d144331a0b1b17889dbb9438d443fafbfa56923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:21 +0000
Subject: [PATCH 15/27] fix: keep images_references equal to the images the
 document uses

An image stayed referenced when its attachment id was still used by another
slot or by a path attachment, and the scale of an image shared by several
slots was never updated.
---
 spine_json_lib/spine_animation_editor.py | 32 ++++++++++--------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index e7bfac8..20e886f 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -94,20 +94,16 @@ class SpineAnimationEditor(object):
                     images_skins_refs.append(attachment_path)
 
         # Check which attachments are not being used in the remaining skins
-        images_to_remove = []
-
-        for img in images_skins_refs:
-            image_graph_id = SpineGraphParser._to_graph_id(
-                node_type_name=NodeType.IMAGE.name, node_base_id=img
-            )
-            if not self.spine_graph.graph.get_node(image_graph_id):
-                images_to_remove.append(img)
+        images_in_use = self.get_images_references()
+        images_to_remove = [
+            img for img in images_skins_refs if img not in images_in_use
+        ]
 
         if is_safe_mode:
             removed_data = [], []
         else:
             removed_data = self.clean_animation()
-        self._clean_images_references(images_ids=images_to_remove)
+        self._clean_images_references()
 
         return removed_data, images_to_remove
 
@@ -199,10 +195,10 @@ class SpineAnimationEditor(object):
             )
         )
 
-        images_node = self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
+        self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
 
         # Remove reference to region attachments in images json file
-        self._clean_images_references(images_ids=images_node)
+        self._clean_images_references()
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
@@ -296,18 +292,16 @@ class SpineAnimationEditor(object):
         for animation_name in animations_to_erase:
             self.spine_anim_data.data.animations.pop(animation_name, None)
 
-    def _clean_images_references(self, images_ids: List[str]) -> None:
-        copy_json = copy.deepcopy(self.images_references)
-        removed_images = []
-        for img_id, img_abs_path in self.images_references.items():
-            if img_id in images_ids:
-                removed_images.append(img_id)
-                del copy_json[img_id]
+    def _clean_images_references(self) -> None:
+        images_references = self.get_images_references()
+        removed_images = [
+            img_id for img_id in self.images_references if img_id not in images_references
+        ]
 
         if removed_images:
             print("Removed images: {}".format(removed_images))
 
-        self.images_references = copy_json
+        self.images_references = images_references
 
     def _clean_slots_in_skins(self, slots_ids: List[str]) -> None:
         skins_data = copy.deepcopy(self.spine_anim_data.data.skins)
-- 
2.43.0


From 9f27452fabae7892adc5df582db5426cf75c0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 16/27] fix: keep draw order offsets that become zero

A slot without offset fills the places the moved slots leave free, so dropping
the entry of a slot whose offset became 0 changed the draw order: with setup
order m x u and draw order u x m only m kept an offset, which draws x u m.
---
 spine_json_lib/data/data_types/draworder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..c04e6ef 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -82,7 +82,7 @@ class DrawOrderTimeline(SpineData):
         return [
             offset
             for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+            if offset.slot not in slots_to_be_removed
         ]
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
-- 
2.43.0


From 1c87222dc9c83006a08198bf107fb382f27d783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 17/27] fix: scale the root bone once even if it does not
 inherit scale

---
 spine_json_lib/spine_animation_editor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 20e886f..1390601 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -217,7 +217,11 @@ class SpineAnimationEditor(object):
         spine_data = self.spine_anim_data.data
         for bone in spine_data.bones:
 
-            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
+            if bone.name != "root" and bone.transform in [
+                "noScale",
+                "noScaleOrReflection",
+                "onlyTranslation",
+            ]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
         spine_data.get_bone("root").scale(scaleX=scaleX, scaleY=scaleY)
 
-- 
2.43.0


From 3ef33cfb968bea52ad07c88e8b4deb597bc954ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 18/27] fix: do not drop explicit values that differ from the
 defaults of the format

A value equal to the default is left out when saving, but some defaults were
not the ones of the Spine format: path constraint spacing is 0, transform
constraint scale offset is 0, an event key takes its missing values from the
event, and inheritRotation/inheritScale are true.
---
 spine_json_lib/data/data_types/bone.py      | 2 --
 spine_json_lib/data/data_types/events.py    | 7 +------
 spine_json_lib/data/data_types/path.py      | 6 +++---
 spine_json_lib/data/data_types/transform.py | 4 ++--
 4 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/spine_json_lib/data/data_types/bone.py b/spine_json_lib/data/data_types/bone.py
index 8cb561c..14ceb4f 100644
--- a/spine_json_lib/data/data_types/bone.py
+++ b/spine_json_lib/data/data_types/bone.py
@@ -13,10 +13,8 @@ class Bone(SpineData):
         "shearX": 0,
         "shearY": 0,
         "transform": "normal",
-        "inheritRotation": False,
         "rotation": 0,
         "length": 0,
-        "inheritScale": False,
     }
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = DEFAULT_VALUES
 
diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index 276b60d..421a97b 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -18,16 +18,11 @@ class Events(SpineData):
 
 
 class EventTimeline(SpineData):
-    DEFAULT_VALUES = {"name": "", "int": 0, "float": 0, "string": ""}
+    DEFAULT_VALUES = {"name": ""}
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "name": "",
-        "int": 0,
-        "float": 0,
-        "string": "",
         "audio": "",
-        "volume": 1,
-        "balance": 0,
     }
 
     def __init__(self, values=None):
diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index 079e733..e6afc19 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -11,7 +11,7 @@ class Path(SpineData):
         "rotateMode": "",
         "rotation": 0,
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "skin": False,
@@ -39,10 +39,10 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "curve": [],
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index e039d71..a6b4017 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -12,8 +12,8 @@ class Transform(SpineData):
         "rotation": 0,
         "x": 0,
         "y": 0,
-        "scaleX": 1.0,
-        "scaleY": 1.0,
+        "scaleX": 0,
+        "scaleY": 0,
         "shearX": 0,
         "shearY": 0,
     }
-- 
2.43.0


From 9c3346f5e46adf65cf546db37cac498eda89b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:24 +0000
Subject: [PATCH 19/27] fix: keep the setup attachment of a slot when another
 id looks like its graph id

---
 spine_json_lib/spine_animation_editor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 1390601..7f62c91 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -343,10 +343,7 @@ class SpineAnimationEditor(object):
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
             if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
+                if default_attachment_id in attachments_ids:
                     copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
-- 
2.43.0


From f7c8457766f97a8efea5991fa4c2dafe7c69df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:29 +0000
Subject: [PATCH 20/27] fix: refuse versions that are not dot separated numbers

---
 spine_json_lib/data/spine_version_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index c84d8f6..1eb2282 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -1,7 +1,7 @@
 import re
 from typing import Tuple
 
-REGEX_TO_MATCH = re.compile(r"^\d+.\d+")
+REGEX_TO_MATCH = re.compile(r"^\d+\.\d+(\.\d+)?\Z")
 
 
 class SpineVersion(object):
-- 
2.43.0


From 6348f85e728efe9f7902bfd8cd9f06953cb8cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:34 +0000
Subject: [PATCH 21/27] fix: drop unsupported curve attributes from every
 timeline

---
 spine_json_lib/data/data_types/deform.py    | 2 ++
 spine_json_lib/data/data_types/path.py      | 2 ++
 spine_json_lib/data/data_types/transform.py | 1 +
 3 files changed, 5 insertions(+)

diff --git a/spine_json_lib/data/data_types/deform.py b/spine_json_lib/data/data_types/deform.py
index 85c34aa..6a1291b 100644
--- a/spine_json_lib/data/data_types/deform.py
+++ b/spine_json_lib/data/data_types/deform.py
@@ -5,6 +5,8 @@ from spine_json_lib.data.data_types.base_type import SpineData
 
 class Deform(SpineData):
     DEFAULT_VALUES: Dict[str, Any] = {"vertices": [], "curve": []}
+    UNSUPPORTED_VALUES_OLD_VERSION = ["c2", "c3", "c4"]
+
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = {
         "time": 0,
         "vertices": [],
diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index e6afc19..981b687 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -40,6 +40,8 @@ class Path(SpineData):
 
 class PathTimeline(SpineData):
     DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
+    UNSUPPORTED_VALUES_OLD_VERSION = ["c2", "c3", "c4"]
+
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
         "spacing": 0,
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index a6b4017..27f1e94 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -46,6 +46,7 @@ class Transform(SpineData):
 
 class TransformTimeline(SpineData):
     DEFAULT_VALUES: Dict[str, Any] = {"curve": []}
+    UNSUPPORTED_VALUES_OLD_VERSION = ["c2", "c3", "c4"]
 
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = {
         "curve": [],
-- 
2.43.0


From f37ccc8a7d48080bc19c2b82b58489186bcdd02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:45 +0000
Subject: [PATCH 22/27] fix: load documents without slots, which is how an
 animation without slots is saved

---
 spine_json_lib/data/spine_anim_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index be76c96..c56da22 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -62,7 +62,9 @@ class SpineAnimationData(SpineData):
         del _data["skeleton"]
 
         self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.slots: List[Slot] = [
+            Slot(value) for value in _data.get("slots", [])
+        ]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
             Skin38(value) for value in _data["skins"]
         ]
-- 
2.43.0


From af152edc1e6fc76520acf8ce5bad0a6300f981f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:34 +0000
Subject: [PATCH 23/27] fix: a node keeps the public id it is added with

DAGraph.add_node takes a public_id and hands it to the node factory, but neither
DefaultNodeFactory nor SpineNodeFactory passed it on to the node.
---
 spine_json_lib/deserializer/spine_nodes.py | 5 +++++
 spine_json_lib/graph/factories.py          | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index 4251e09..74eecd9 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -48,6 +48,7 @@ class SpineNodeFactory(INodeFactory):
                 node_type=NodeType.BONE.name,
                 children_types_forbidden=[NodeType.ATTACHMENT.name],
                 order=order,
+                public_id=public_id,
             )
         elif node_type == NodeType.SLOT.name:
             created_node = SpamNode(
@@ -60,6 +61,7 @@ class SpineNodeFactory(INodeFactory):
                     NodeType.IK.name,
                 ],
                 order=order,
+                public_id=public_id,
             )
         elif node_type == NodeType.IK.name:
             created_node = SpamNode(
@@ -73,6 +75,7 @@ class SpineNodeFactory(INodeFactory):
                     NodeType.IMAGE.name,
                 ],
                 order=order,
+                public_id=public_id,
             )
         elif node_type == NodeType.ATTACHMENT.name:
             created_node = SpamNode(
@@ -86,6 +89,7 @@ class SpineNodeFactory(INodeFactory):
                     NodeType.BONE.name,
                 ],
                 order=order,
+                public_id=public_id,
             )
         elif node_type == NodeType.IMAGE.name:
             created_node = SpamNode(
@@ -94,6 +98,7 @@ class SpineNodeFactory(INodeFactory):
                 node_type=NodeType.IMAGE.name,
                 children_types_forbidden=[_type.name for _type in list(NodeType)],
                 order=order,
+                public_id=public_id,
             )
 
         return created_node
diff --git a/spine_json_lib/graph/factories.py b/spine_json_lib/graph/factories.py
index 79de426..cf5ec0e 100644
--- a/spine_json_lib/graph/factories.py
+++ b/spine_json_lib/graph/factories.py
@@ -62,5 +62,9 @@ class DefaultNodeFactory(INodeFactory):
         public_id: Optional[str] = None,
     ) -> SpamNode:
         return SpamNode(
-            id_value=node_id, data=node_data, node_type=node_type, order=order
+            id_value=node_id,
+            data=node_data,
+            node_type=node_type,
+            order=order,
+            public_id=public_id,
         )
-- 
2.43.0


From d79a534d8db82c4f6790df2d50f6c9e3166e29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:34 +0000
Subject: [PATCH 24/27] fix: refuse to add a node of a type the factory does
 not know

SpineNodeFactory creates nothing for such a type; the graph kept the missing node
under its id, and every later walk over the nodes failed on it.
---
 spine_json_lib/graph/dagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index ca8f690..daba094 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -17,6 +17,7 @@ from spine_json_lib.graph.spamnode import SpamNode
 UNIQUE_ID_ERROR_MESSAGE = "Multiples nodes with ID = {} where found, but ids need to be unique"
 GRAPH_PARSER_WRONG_TYPE = "graph_parser param needs to implement IGraphFactory"
 WRONG_NODE_ID_TYPE = "Only string type allowed for node_id param"
+UNKNOWN_NODE_TYPE = "The node factory can not create nodes of type = {}"
 ID_NODE_NOT_FOUND = "Node with ID = {} was not found in the graph"
 NODE_FACTORY_WRONG_TYPE = (
     "node_factory needs to be of a type that implements INodeFactory"
@@ -86,6 +87,8 @@ class DAGraph(object):
             public_id=public_id,
             order=unique_id,
         )
+        if new_node is None:
+            raise TypeError(UNKNOWN_NODE_TYPE.format(node_type))
 
         self.nodes_counter += 1
         self._nodes[_id_node] = new_node
-- 
2.43.0


From 391b72c6685ab24fd10aaf60da69abcaa4791d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 25/27] fix: check both factors before scaling any bone

A scaling refused for its second factor (None, a string) had already
multiplied the transforms of the bones before the first that it cannot
multiply, and the document was left half scaled.
---
 spine_json_lib/spine_animation_editor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 7f62c91..a875858 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -1,5 +1,6 @@
 import copy
 import json
+import numbers
 import os
 from collections import namedtuple
 
@@ -211,6 +212,13 @@ class SpineAnimationEditor(object):
         self._clean_attachments_in_slots(attachments_ids=attachments_ids)
 
     def scale_animation(self, scaleX, scaleY):
+        # Check both factors before scaling any bone
+        for factor in (scaleX, scaleY):
+            if not isinstance(factor, numbers.Real):
+                raise TypeError(
+                    "Animations can only be scaled by numbers, not by {}".format(factor)
+                )
+
         # To scale the animation we have to scale the root bone,
         # but also all the bones with 'noScale', 'onlyTranslation' and 'noScaleOrReflection'
         # attributes as these don't inherit scale from parent roots
-- 
2.43.0


From 14b5b54c656fc739d5afdb88ea0159a0e7baeca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 26/27] fix: read documents as UTF-8 in every locale

JSON files are UTF-8, but they were read in the encoding of the locale:
under LC_ALL=C names outside ASCII were garbled or refused.
---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 spine_json_lib/spine_animation_editor.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index 74eecd9..0cedfd4 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -130,7 +130,7 @@ class SpineGraphParser(IGraphParser):
         cls, json_file: str, node_factory: SpineNodeFactory
     ) -> DAGraph:
         # Parse json
-        with open(json_file) as f:
+        with open(json_file, encoding="utf-8") as f:
             json_data = json.load(f)
 
         return SpineGraphParser.create_from_json_data(
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index a875858..e3c1a35 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -59,7 +59,7 @@ class SpineAnimationEditor(object):
 
     @staticmethod
     def from_json_file(json_path: str) -> SpineAnimationEditorType:
-        with open(json_path) as f:
+        with open(json_path, encoding="utf-8") as f:
             spine_json_data = json.load(f)
 
         return SpineAnimationEditor(json_data=spine_json_data)
-- 
2.43.0


From 73e3ea6c997c858d37fe36318db37b0dcea27873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:22 +0000
Subject: [PATCH 27/27] fix: look for the root bone before scaling any other

A document whose root bone has another name cannot be scaled, but the
bones that do not inherit scale were scaled before that was found out.
---
 spine_json_lib/spine_animation_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index e3c1a35..515e1dd 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -218,6 +218,10 @@ class SpineAnimationEditor(object):
                 raise TypeError(
                     "Animations can only be scaled by numbers, not by {}".format(factor)
                 )
+        if self.spine_anim_data.data.get_bone("root") is None:
+            raise SpineJsonEditorError(
+                message="Trying to scale an animation without a bone named root"
+            )
 
         # To scale the animation we have to scale the root bone,
         # but also all the bones with 'noScale', 'onlyTranslation' and 'noScaleOrReflection'
-- 
2.43.0

