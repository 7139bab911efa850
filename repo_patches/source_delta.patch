From 0a2bf826709879653ca3f80daa8cbd80abc7096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 01/24] fix: make set_mimic_parent and the mimic error free of
 self-deadlock

set_mimic_parent published the child to the parent before its own mimic was
set, so that a set_joint_position of the parent in between took the error
branch, which locked both nodes a second time and never returned.
---
 src/node.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index b2b62c2..85c718c 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -214,8 +214,9 @@ where
                     .joint
                     .set_joint_position(m.mimic_position(position))?,
                 None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
+                    // do not lock again, the guards of both nodes are held here
+                    let from = node.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
                     return Err(Error::MimicError { from, to });
                 }
             };
@@ -317,9 +318,13 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        {
+            // complete this node first, the parent uses it as soon as it finds it
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         parent.lock().mimic_children.push(self.clone());
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From 6ae0cbd1709d267219eb35700417678e88f069b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 02/24] fix: lock each node once in iter_links

The link could be removed between the check and the creation of the guard,
whose deref panics then.
---
 src/chain.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..e1e4d50 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -278,8 +278,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     /// Iterate for links
     pub fn iter_links(&self) -> impl Iterator<Item = LinkRefGuard<'_, T>> {
         self.nodes.iter().filter_map(|node| {
-            if node.link().is_some() {
-                Some(LinkRefGuard { guard: node.lock() })
+            // check and return with the same guard
+            let guard = node.lock();
+            if guard.link.is_some() {
+                Some(LinkRefGuard { guard })
             } else {
                 None
             }
-- 
2.43.0


From 2acbfff34f2a37ccc9a728f08b2a3445890d4885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 03/24] fix: do not hold the ancestors while a chain is
 formatted

Display kept every node from the root to the printed one locked, which
deadlocks against set_joint_position of a joint mimicked by an ancestor.
---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index e1e4d50..9ca3c6a 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        // release the node before its descendants are locked
+        let children = node.children().clone();
+        for c in children.iter() {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From e0007f5bf61dedb8357020213339b17fd6bd1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 04/24] fix: do not use the transform caches as input of
 update_transforms

A position set by another thread during the pass cleared the cache of a
parent, and the pass panicked. A chain whose first joint has a parent
panicked if the parent was never updated, or used its old transform.
---
 src/chain.rs | 30 ++++++++++++++++++++++--------
 src/node.rs  |  8 ++++++++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 9ca3c6a..46798b7 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -382,14 +382,28 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_transform() of the joints
     pub fn update_transforms(&self) -> Vec<Isometry3<T>> {
-        self.iter()
-            .map(|node| {
-                let parent_transform = node.parent_world_transform().expect("cache must exist");
-                let trans = parent_transform * node.joint().local_transform();
-                node.joint().set_world_transform(trans);
-                trans
-            })
-            .collect()
+        // The caches are only written here. They are not used as input, because they can be
+        // cleared, or be older than the positions.
+        let mut transforms = Vec::with_capacity(self.nodes.len());
+        for node in self.iter() {
+            let parent_transform = match node.parent() {
+                Some(parent) => match self.index_before(transforms.len(), &parent) {
+                    Some(parent_index) => transforms[parent_index],
+                    None => parent.calc_world_transform(),
+                },
+                None => Isometry3::identity(),
+            };
+            let joint = node.joint();
+            let trans = parent_transform * joint.local_transform();
+            joint.set_world_transform(trans);
+            transforms.push(trans);
+        }
+        transforms
+    }
+
+    /// Get the index of the `node` which is in the first `len` nodes
+    fn index_before(&self, len: usize, node: &Node<T>) -> Option<usize> {
+        self.nodes[..len].iter().rposition(|x| x == node)
     }
 
     /// Update world_velocity() of the joints
diff --git a/src/node.rs b/src/node.rs
index 85c718c..fd19562 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -266,6 +266,14 @@ where
         }
     }
 
+    /// Calculate the world transform from the current joints, without the cache
+    pub(crate) fn calc_world_transform(&self) -> Isometry3<T> {
+        self.iter_ancestors()
+            .fold(Isometry3::identity(), |trans, node| {
+                node.joint().local_transform() * trans
+            })
+    }
+
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
             Some(ref parent) => parent.world_velocity(),
-- 
2.43.0


From 69547a2fa566579af6950eff9c0008092d710405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 05/24] fix: use the transforms of one pass in jacobian and
 center_of_mass

They read the caches after the pass, which another thread may have cleared
(jacobian panicked, center_of_mass skipped the link), and jacobian mixed the
world coordinates of the joints with the end pose in the chain coordinates.
---
 src/funcs.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bf03a58..ec8fd07 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -10,13 +10,16 @@ where
     T: RealField + SubsetOf<f64>,
 {
     let dof = arm.dof();
-    let t_n = arm.end_transform();
-    arm.update_transforms();
+    // use only the transforms of this pass, all of them are in the world coordinates
+    let transforms = arm.update_transforms();
+    let t_n = transforms.last().copied().unwrap_or_else(na::one);
     let p_n = t_n.translation;
     let jacobi_vec = arm
-        .iter_joints()
-        .map(|joint| {
-            let t_i = joint.world_transform().unwrap();
+        .iter()
+        .zip(transforms)
+        .filter(|(node, _)| node.joint().is_movable())
+        .map(|(node, t_i)| {
+            let joint = node.joint();
             match joint.joint_type {
                 JointType::Linear { axis } => {
                     let p_i = t_i.rotation * axis;
@@ -62,9 +65,9 @@ where
     let mut total_mass = T::zero();
     let mut com = Vector3::zeros();
 
-    chain.update_transforms();
+    let mut transforms = chain.update_transforms().into_iter();
     chain.iter().for_each(|node| {
-        if let Some(trans) = node.world_transform() {
+        if let Some(trans) = transforms.next() {
             if let Some(ref link) = *node.link() {
                 let inertia_trans = trans * link.inertial.origin().translation;
                 com += inertia_trans.translation.vector * link.inertial.mass;
-- 
2.43.0


From b139b4ab34e8e1538b2d294f92e85d87acd532c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 06/24] fix: place the links at their own joint in
 update_link_transforms

The origins of a link are relative to the joint it is attached to, as
center_of_mass has it, and not to the parent of that joint. The transform
comes from the pass itself, not from a cache which may be cleared.
---
 src/chain.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 46798b7..0028534 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -456,19 +456,18 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update transforms of the links
     pub fn update_link_transforms(&self) {
-        self.update_transforms();
-        self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+        let transforms = self.update_transforms();
+        self.iter().zip(transforms).for_each(|(node, trans)| {
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = trans * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = trans * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = trans * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From 8b48cd03f265459a0487c7a7e86bba43f47c4f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 07/24] fix: make update_velocities return, with the velocities
 of the joints

It never returned for a chain with a movable joint, because the match kept
the node locked while it was locked again, and it panicked for a rotational
joint without parent. The velocity at a joint is the one of its parent at
that position, plus the motion of the joint itself.
---
 src/chain.rs       | 64 +++++++++++++++-------------------------------
 src/joint/joint.rs | 25 ++++++++++++++++++
 src/node.rs        | 14 ++++++----
 3 files changed, 54 insertions(+), 49 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0028534..1cb1eb5 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -408,50 +408,26 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
-        self.update_transforms();
-        self.iter()
-            .map(|node| {
-                let parent_transform = node
-                    .parent_world_transform()
-                    .expect("transform cache must exist");
-                let parent_velocity = node
-                    .parent_world_velocity()
-                    .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
-                    JointType::Fixed => parent_velocity,
-                    JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
-                    }
-                    JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
-                            + node
-                                .world_transform()
-                                .expect("cache must exist")
-                                .rotation
-                                .to_rotation_matrix()
-                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
-                        parent_velocity.rotation,
-                    ),
-                };
-                node.joint().set_world_velocity(velocity);
-                velocity
-            })
-            .collect()
+        // the transforms and the velocities are the results of the same joint positions
+        let mut transforms = Vec::with_capacity(self.nodes.len());
+        let mut velocities = Vec::with_capacity(self.nodes.len());
+        for node in self.iter() {
+            let (parent_transform, parent_velocity) = match node.parent() {
+                Some(parent) => match self.index_before(transforms.len(), &parent) {
+                    Some(parent_index) => (transforms[parent_index], velocities[parent_index]),
+                    None => parent.calc_world_transform_and_velocity(),
+                },
+                None => (Isometry3::identity(), Velocity::zero()),
+            };
+            let joint = node.joint();
+            let (trans, velocity) =
+                joint.calc_world_transform_and_velocity(&parent_transform, &parent_velocity);
+            joint.set_world_transform(trans);
+            joint.set_world_velocity(velocity);
+            transforms.push(trans);
+            velocities.push(velocity);
+        }
+        velocities
     }
 
     /// Update transforms of the links
diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index ba6d487..a020051 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -232,6 +232,31 @@ where
         self.origin * joint_transform
     }
 
+    /// Calculate the world transform and velocity of the end of this joint from the parent's
+    pub(crate) fn calc_world_transform_and_velocity(
+        &self,
+        parent_transform: &Isometry3<T>,
+        parent_velocity: &Velocity<T>,
+    ) -> (Isometry3<T>, Velocity<T>) {
+        let trans = parent_transform * self.local_transform();
+        // motion of the parent at the position of this joint
+        let arm = trans.translation.vector - parent_transform.translation.vector;
+        let mut velocity = Velocity::from_parts(
+            parent_velocity.translation + parent_velocity.rotation.cross(&arm),
+            parent_velocity.rotation,
+        );
+        match self.joint_type {
+            JointType::Fixed => {}
+            JointType::Rotational { axis } => {
+                velocity.rotation += trans.rotation * axis.into_inner() * self.velocity;
+            }
+            JointType::Linear { axis } => {
+                velocity.translation += trans.rotation * axis.into_inner() * self.velocity;
+            }
+        }
+        (trans, velocity)
+    }
+
     #[inline]
     pub(crate) fn set_world_transform(&self, world_transform: Isometry3<T>) {
         self.world_transform_cache.replace(Some(world_transform));
diff --git a/src/node.rs b/src/node.rs
index fd19562..e52d1bf 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -258,6 +258,7 @@ where
             .set_joint_position_unchecked(position);
     }
 
+    #[cfg(test)]
     pub(crate) fn parent_world_transform(&self) -> Option<Isometry3<T>> {
         //match self.0.borrow().parent {
         match self.parent() {
@@ -274,11 +275,14 @@ where
             })
     }
 
-    pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
-        match self.parent() {
-            Some(ref parent) => parent.world_velocity(),
-            None => Some(Velocity::zero()),
-        }
+    /// Calculate the world transform and velocity from the current joints, without the caches
+    pub(crate) fn calc_world_transform_and_velocity(&self) -> (Isometry3<T>, Velocity<T>) {
+        let (parent_transform, parent_velocity) = match self.parent() {
+            Some(parent) => parent.calc_world_transform_and_velocity(),
+            None => (Isometry3::identity(), Velocity::zero()),
+        };
+        self.joint()
+            .calc_world_transform_and_velocity(&parent_transform, &parent_velocity)
     }
 
     /// Get the calculated world transform.
-- 
2.43.0


From cb81d9dbad86ff12a47808bd6069bbc235170014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 08/24] fix: keep the order of the branches when a chain is
 cloned

The children were connected in the order of the nodes, which is the reverse
of the order they are iterated, so that joint_positions of the clone belonged
to other joints. Cloning panicked if a mimic parent is out of the chain.
---
 src/chain.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 1cb1eb5..8334ad9 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -466,7 +466,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -477,23 +477,28 @@ where
             .collect::<Vec<_>>();
         // Connect to new nodes
         for i in 0..new_nodes.len() {
-            if let Some(p) = self.nodes[i].parent() {
-                // get index of p
-                let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
-                new_nodes[i].set_parent(&new_nodes[parent_index]);
+            // in the order of the children, not of the nodes
+            let children = self.nodes[i].children().clone();
+            for c in &children {
+                // children can be out of this chain
+                if let Some(child_index) = self.nodes.iter().position(|x| x == c) {
+                    new_nodes[child_index].set_parent(&new_nodes[i]);
+                }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                // mimic parent can be out of this chain
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From db8631f7eaa89a1a7c7adc0ee99a2b2ab98cf10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 09/24] fix: restore the joint positions exactly when ik fails

set_joint_positions skips the mimic joints, moves joints out of the arm which
mimic one of it, and refuses positions out of the limits, which replaced the
error and left the rest of the arm as the solver had moved it.
---
 src/ik.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..1dead7e 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -337,7 +337,7 @@ where
             }
             last_target_distance = Some((len_diff, rot_diff));
         }
-        arm.set_joint_positions(&orig_positions)?;
+        arm.set_joint_positions_unchecked(&orig_positions);
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
             position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
@@ -463,7 +463,7 @@ where
         let orig_positions = arm.joint_positions();
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            arm.set_joint_positions_unchecked(&orig_positions);
         };
         re
     }
-- 
2.43.0


From 54ad1471b9a51d3e4cc74c047ebab3b0784ae61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 10/24] fix: do not move other joints for ignored ones in the
 square case of ik

The solution has no rows for the ignored joints, so that each joint after
the first ignored one moved by the value of another joint.
---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 1dead7e..78b91ee 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From 2bed3939cc3174487b87556ab032ea84d5e4cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 11/24] fix: count each ignored joint of ik once

More ignored names than joints, or the same name twice, underflowed or
removed a joint which is not ignored.
---
 src/ik.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 78b91ee..54d855b 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -294,13 +294,6 @@ where
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
         let orig_positions = arm.joint_positions();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -316,6 +309,14 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        ignored_joint_indices.dedup();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From bd49d18bcbc8b47b4bde666a3bf5b9010c93603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 12/24] fix: return the error instead of a panic if num_max_try
 of ik is zero

---
 src/ik.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ik.rs b/src/ik.rs
index 54d855b..77b522c 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -317,7 +317,11 @@ where
                 necessary_dof: required_dof,
             });
         }
-        let mut last_target_distance = None;
+        // it is reported if no loop is allowed
+        let mut last_target_distance = Some(target_diff_to_len_rot_diff(
+            &calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space),
+            operational_space,
+        ));
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
                 arm,
-- 
2.43.0


From a751c7057dfca131659435788bc6c485da77aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 13/24] fix: return an error from ik if the pose or the
 jacobian is not finite

The singular value decomposition of nalgebra never returns for such input.
---
 src/ik.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index 77b522c..8ab8c4d 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -226,6 +226,10 @@ where
         let t_n = arm.end_transform();
         let err = calc_pose_diff_with_constraints(target_pose, &t_n, *operational_space);
         let mut jacobi = jacobian(arm);
+        // the singular value decomposition does not finish with such a matrix
+        if !err.iter().chain(jacobi.iter()).all(|x| x.is_finite()) {
+            return Err(Error::InverseMatrixError);
+        }
         let mut num_removed_rows = 0;
         for (i, use_i) in operational_space.iter().enumerate() {
             if !use_i {
-- 
2.43.0


From 1f1cfb5acf055b7dd8e1a6720ffdf30441cb6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 14/24] fix: return an error from from_urdf_file for a robot
 which has no chain

It panicked for a mimic of a joint which does not exist, and for a lower
limit which is not below the upper one.
---
 src/urdf.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..82c929f 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -337,10 +337,31 @@ where
     where
         P: AsRef<Path>,
     {
-        Ok(urdf_rs::utils::read_urdf_or_xacro(path)?.into())
+        let robot = urdf_rs::utils::read_urdf_or_xacro(path)?;
+        check_robot(&robot)?;
+        Ok(robot.into())
     }
 }
 
+/// Check the contents which can not be converted to `Chain`
+fn check_robot(robot: &urdf_rs::Robot) -> Result<(), urdf_rs::UrdfError> {
+    for j in &robot.joints {
+        // not valid if one of them is nan
+        let is_valid_limit = j.limit.lower <= j.limit.upper;
+        if !is_valid_limit {
+            return Err(format!("invalid limit of joint {}", j.name).as_str().into());
+        }
+        if let Some(mimic) = &j.mimic {
+            if !robot.joints.iter().any(|p| p.name == mimic.joint) {
+                return Err(format!("{} not found, mimic not found", mimic.joint)
+                    .as_str()
+                    .into());
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Useful function to deal about 'Links' of URDF
 ///
 /// `k` deals only `Joint`s of URDF. But links is connected
-- 
2.43.0


From 36faff58c877be52a6e8b3c2cff5fb50d3a9de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 15/24] fix: do not let a mimic parent own its mimic children

A joint which mimics one of its own descendants, or itself, made a cycle of
Arc, and the chain was never freed.
---
 src/node.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index e52d1bf..fe5de08 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -38,7 +38,7 @@ where
     pub children: Vec<Node<T>>,
     pub joint: Joint<T>,
     pub mimic_parent: Option<WeakNode<T>>,
-    pub mimic_children: Vec<Node<T>>,
+    pub mimic_children: Vec<WeakNode<T>>,
     pub mimic: Option<Mimic<T>>,
     pub link: Option<Link<T>>,
 }
@@ -206,7 +206,8 @@ where
             return Ok(());
         }
         node.joint.set_joint_position(position)?;
-        for child in &node.mimic_children {
+        for child in node.mimic_children.iter().filter_map(Weak::upgrade) {
+            let child = Node::from_arc(child);
             let mut child_node = child.lock();
             let mimic = child_node.mimic.clone();
             match mimic {
@@ -336,7 +337,7 @@ where
             node.mimic_parent = Some(Arc::downgrade(&parent.0));
             node.mimic = Some(mimic);
         }
-        parent.lock().mimic_children.push(self.clone());
+        parent.lock().mimic_children.push(Arc::downgrade(&self.0));
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From 0d6092ea8991118371fb37d4f665b3a041d44c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 16/24] fix: map the root joint to the root link in
 joint_to_link_map

---
 src/urdf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index 82c929f..6742c7f 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -396,7 +396,8 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        // the root link is not a child of any joint
+        if !urdf_robot.joints.iter().any(|j| j.child.link == l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0


From 72734a14856e3159b96962596f9eebc9bc9b3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 17/24] fix: do not set joints to positions which are not
 finite in ik

---
 src/ik.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index 8ab8c4d..ca56c84 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -281,6 +281,10 @@ where
             }
             self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
+        // NaN has no nearest position within the limits
+        if !positions_vec.iter().all(|x| x.is_finite()) {
+            return Err(Error::InverseMatrixError);
+        }
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
             target_pose,
-- 
2.43.0


From 1c291ee699d5cf2defcfa061c950d5b3b6dfc97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 18/24] fix: a joint whose parent is gone is a root

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index fe5de08..e852f82 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -127,7 +127,7 @@ where
     /// assert!(!l1.is_root());
     /// ```
     pub fn is_root(&self) -> bool {
-        self.lock().parent.is_none()
+        self.parent().is_none()
     }
 
     /// # Examples
-- 
2.43.0


From ff559482d178d35cf9a2b6d9e789fa61d15c2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 19/24] fix: a joint can be set again when the joint it mimics
 is gone

---
 src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index e852f82..54a71fa 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -202,7 +202,8 @@ where
     /// ```
     pub fn set_joint_position(&self, position: T) -> Result<(), Error> {
         let mut node = self.lock();
-        if node.mimic_parent.is_some() {
+        // it is free again if the joint it mimics is gone
+        if matches!(&node.mimic_parent, Some(parent) if parent.strong_count() > 0) {
             return Ok(());
         }
         node.joint.set_joint_position(position)?;
-- 
2.43.0


From 2200a19273583c9e5759e209a4331cd138d4d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 20/24] fix: forget the world velocity of a joint when its
 origin is set

---
 src/joint/joint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index a020051..f96babc 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -181,6 +181,7 @@ where
     pub fn set_origin(&mut self, origin: Isometry3<T>) {
         self.origin = origin;
         self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
     }
 
     pub fn set_joint_velocity(&mut self, velocity: T) -> Result<(), Error> {
-- 
2.43.0


From 2a7ab0fb7b321bafd10381f1c339473eb832236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 21/24] fix: detach a joint from its former parent when it gets
 a new one

---
 src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 54a71fa..51cd0bd 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -105,7 +105,11 @@ where
 
     /// Set parent and child relations at same time
     pub fn set_parent(&self, parent: &Node<T>) {
-        self.lock().parent = Some(Arc::downgrade(&parent.0));
+        let old_parent = self.lock().parent.replace(Arc::downgrade(&parent.0));
+        // it is not a child of the former parent any longer
+        if let Some(old_parent) = old_parent.and_then(|weak| weak.upgrade()) {
+            old_parent.lock().unwrap().children.retain(|x| *x != *self);
+        }
         parent.0.lock().unwrap().children.push(self.clone());
     }
 
-- 
2.43.0


From 92ccc959d259a29f0e6973b51ea923e3a713eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 22/24] fix: a joint which got another mimic parent does not
 follow the former one

---
 src/node.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 51cd0bd..7d93af4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -211,9 +211,14 @@ where
             return Ok(());
         }
         node.joint.set_joint_position(position)?;
+        let this = Arc::downgrade(&self.0);
         for child in node.mimic_children.iter().filter_map(Weak::upgrade) {
             let child = Node::from_arc(child);
             let mut child_node = child.lock();
+            // it got another parent in the meantime
+            if !matches!(&child_node.mimic_parent, Some(parent) if parent.ptr_eq(&this)) {
+                continue;
+            }
             let mimic = child_node.mimic.clone();
             match mimic {
                 Some(m) => child_node
@@ -336,11 +341,22 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
-        {
+        let new_parent = Arc::downgrade(&parent.0);
+        let old_parent = {
             // complete this node first, the parent uses it as soon as it finds it
             let mut node = self.lock();
-            node.mimic_parent = Some(Arc::downgrade(&parent.0));
             node.mimic = Some(mimic);
+            node.mimic_parent.replace(new_parent.clone())
+        };
+        if let Some(old_parent) = old_parent {
+            if old_parent.ptr_eq(&new_parent) {
+                return;
+            }
+            // it does not follow the former parent any longer
+            if let Some(old_parent) = old_parent.upgrade().map(Node::from_arc) {
+                let this = Arc::downgrade(&self.0);
+                old_parent.lock().mimic_children.retain(|x| !x.ptr_eq(&this));
+            }
         }
         parent.lock().mimic_children.push(Arc::downgrade(&self.0));
     }
-- 
2.43.0


From f05def10b8bc2e37a26bbb4d0d15bff5da4180ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 23/24] fix: removing a joint from a node which is not its
 parent keeps its parent

---
 src/node.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 7d93af4..a4640e3 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -115,7 +115,13 @@ where
 
     /// Remove parent and child relations at same time
     pub fn remove_parent(&self, parent: &Node<T>) {
-        self.lock().parent = None;
+        {
+            let mut node = self.lock();
+            // it stays a child of another parent
+            if matches!(&node.parent, Some(weak) if weak.as_ptr() == Arc::as_ptr(&parent.0)) {
+                node.parent = None;
+            }
+        }
         parent.0.lock().unwrap().children.retain(|x| *x != *self);
     }
 
-- 
2.43.0


From 62c0c06b623730916a3f4e3d56fcc04df9a79b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 24/24] fix: change the parent or the mimic parent of a joint
 by one thread at a time

---
 src/node.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index a4640e3..1093d2a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -19,7 +19,7 @@ use nalgebra as na;
 use simba::scalar::SubsetOf;
 use std::fmt::{self, Display};
 use std::ops::Deref;
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError, Weak};
 
 use super::errors::*;
 use super::iterator::*;
@@ -41,6 +41,8 @@ where
     pub mimic_children: Vec<WeakNode<T>>,
     pub mimic: Option<Mimic<T>>,
     pub link: Option<Link<T>>,
+    /// it is locked, before the node, to change the parent or the mimic parent
+    relations: Arc<Mutex<()>>,
 }
 
 /// Parts of `Chain`
@@ -66,6 +68,7 @@ where
             mimic_children: Vec::new(),
             mimic: None,
             link: None,
+            relations: Arc::new(Mutex::new(())),
         })))
     }
 
@@ -105,6 +108,8 @@ where
 
     /// Set parent and child relations at same time
     pub fn set_parent(&self, parent: &Node<T>) {
+        let relations = self.lock().relations.clone();
+        let _relations = relations.lock().unwrap_or_else(PoisonError::into_inner);
         let old_parent = self.lock().parent.replace(Arc::downgrade(&parent.0));
         // it is not a child of the former parent any longer
         if let Some(old_parent) = old_parent.and_then(|weak| weak.upgrade()) {
@@ -115,6 +120,8 @@ where
 
     /// Remove parent and child relations at same time
     pub fn remove_parent(&self, parent: &Node<T>) {
+        let relations = self.lock().relations.clone();
+        let _relations = relations.lock().unwrap_or_else(PoisonError::into_inner);
         {
             let mut node = self.lock();
             // it stays a child of another parent
@@ -347,6 +354,8 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
+        let relations = self.lock().relations.clone();
+        let _relations = relations.lock().unwrap_or_else(PoisonError::into_inner);
         let new_parent = Arc::downgrade(&parent.0);
         let old_parent = {
             // complete this node first, the parent uses it as soon as it finds it
-- 
2.43.0

