From a04b013aa0c946ce758f4afb530b47157b2cd6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:44 +0000
Subject: [PATCH 01/17] fix: clamp vectors to the upper bound

b2_clamp_vec2 took the maximum of the value and the upper bound, so every
result was at least the upper bound.
---
 src/b2_math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b2_math.rs b/src/b2_math.rs
index 92454c3..e4c396c 100644
--- a/src/b2_math.rs
+++ b/src/b2_math.rs
@@ -731,7 +731,7 @@ where
 }
 
 pub fn b2_clamp_vec2(a: B2vec2, low: B2vec2, high: B2vec2) -> B2vec2 {
-    return b2_max_vec2(low, b2_max_vec2(a, high));
+    return b2_max_vec2(low, b2_min_vec2(a, high));
 }
 
 pub fn b2_swap<T: Clone>(a: &mut T, b: &mut T) {
-- 
2.43.0


From 82708930e07a7e29326bce64d0df2ba5d0b356c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:08 +0000
Subject: [PATCH 02/17] fix: start polygon ray casts at the ray origin

---
 src/private/collision/b2_polygon_shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/collision/b2_polygon_shape.rs b/src/private/collision/b2_polygon_shape.rs
index 5b28678..979ca69 100644
--- a/src/private/collision/b2_polygon_shape.rs
+++ b/src/private/collision/b2_polygon_shape.rs
@@ -237,7 +237,7 @@ pub fn b2_shape_dyn_trait_ray_cast(
 	let p2: B2vec2 = b2_mul_t_rot_by_vec2(xf.q, input.p2 - xf.p);
 	let d: B2vec2 = p2 - p1;
 
-	let (mut lower, mut upper) = (0.032, input.max_fraction);
+	let (mut lower, mut upper) = (0.0, input.max_fraction);
 
 	let mut index: i32 = -1;
 
-- 
2.43.0


From 89d4d199c7689f008eac7db2e0b6394d3173bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:03 +0000
Subject: [PATCH 03/17] fix: enabling an enabled body does nothing

---
 src/private/dynamics/b2_body.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/dynamics/b2_body.rs b/src/private/dynamics/b2_body.rs
index 27ea53b..3bbf151 100644
--- a/src/private/dynamics/b2_body.rs
+++ b/src/private/dynamics/b2_body.rs
@@ -493,6 +493,10 @@ pub fn set_enabled<D: UserDataType>(self_: BodyPtr<D>, flag: bool) {
 			return;
 		}
 
+		if flag == self_.is_enabled() {
+			return;
+		}
+
 		self_.m_flags.set(BodyFlags::E_ENABLED_FLAG, flag);
 		m_fixture_list = self_.m_fixture_list.clone();
 		m_xf = self_.m_xf;
-- 
2.43.0


From 57cf06efc181efb3539fb8c6547155dee0aa7f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:08 +0000
Subject: [PATCH 04/17] fix: distance joint drops its limit impulses when warm
 starting is off

---
 src/private/dynamics/joints/b2_distance_joint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 0675253..da4a78b 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -172,6 +172,8 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		w_b += self_.m_inv_ib * b2_cross(self_.m_r_b, p);
 	} else {
 		self_.m_impulse = 0.0;
+		self_.m_lower_impulse = 0.0;
+		self_.m_upper_impulse = 0.0;
 	}
 
 	velocities[self_.m_index_a].v = v_a;
-- 
2.43.0


From 0506d7bde898dff0366f83808c062ecb2adda181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:08 +0000
Subject: [PATCH 05/17] fix: wheel joint scales its limit impulses to the new
 time step

---
 src/private/dynamics/joints/b2_wheel_joint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index 6caa2b8..6015134 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -138,6 +138,8 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		self_.m_impulse *= data.step.dt_ratio;
 		self_.m_spring_impulse *= data.step.dt_ratio;
 		self_.m_motor_impulse *= data.step.dt_ratio;
+		self_.m_lower_impulse *= data.step.dt_ratio;
+		self_.m_upper_impulse *= data.step.dt_ratio;
 
 		let axial_impulse: f32 = self_.m_spring_impulse + self_.m_lower_impulse - self_.m_upper_impulse;
 		let p: B2vec2 = self_.m_impulse * self_.m_ay + axial_impulse * self_.m_ax;
-- 
2.43.0


From f6b4c16b53a9ae3e11937b71351df5a113447d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:08 +0000
Subject: [PATCH 06/17] fix: gear joint scales its impulse to the new time step

---
 src/private/dynamics/joints/b2_gear_joint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/dynamics/joints/b2_gear_joint.rs b/src/private/dynamics/joints/b2_gear_joint.rs
index 152b11a..9e88ab9 100644
--- a/src/private/dynamics/joints/b2_gear_joint.rs
+++ b/src/private/dynamics/joints/b2_gear_joint.rs
@@ -270,6 +270,8 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 
 	if data.step.warm_starting
 	{
+		self_.m_impulse *= data.step.dt_ratio;
+
 		v_a += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
 		w_a += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
 		v_b += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
-- 
2.43.0


From 269c3c0df30c0e3f6e21e752f0661f4146899309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:20 +0000
Subject: [PATCH 07/17] fix: gear joint couples the bodies of its two joints

---
 src/private/dynamics/joints/b2_gear_joint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/dynamics/joints/b2_gear_joint.rs b/src/private/dynamics/joints/b2_gear_joint.rs
index 9e88ab9..76046ac 100644
--- a/src/private/dynamics/joints/b2_gear_joint.rs
+++ b/src/private/dynamics/joints/b2_gear_joint.rs
@@ -129,9 +129,13 @@ pub(crate) fn new<D: UserDataType>(def: &B2gearJointDef<D>)->B2gearJoint<D>
 
 	let m_impulse = 0.0;
 
+	let mut base = B2joint::new(&def.base);
+	base.m_body_a = m_body_a;
+	base.m_body_b = m_body_b;
+
 	return B2gearJoint{
 
-		base: B2joint::new(&def.base),
+		base,
 
 		m_joint1,
 		m_joint2,
-- 
2.43.0


From 1752c2bba5f0b62e808a83b4281567bbb78f8946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:20 +0000
Subject: [PATCH 08/17] fix: prismatic joint with equal limits is corrected
 towards the limit

---
 src/private/dynamics/joints/b2_prismatic_joint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/dynamics/joints/b2_prismatic_joint.rs b/src/private/dynamics/joints/b2_prismatic_joint.rs
index fcebeba..42ff342 100644
--- a/src/private/dynamics/joints/b2_prismatic_joint.rs
+++ b/src/private/dynamics/joints/b2_prismatic_joint.rs
@@ -382,8 +382,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 	if self_.m_enable_limit {
 		let translation: f32 = b2_dot(axis, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c2 = translation;
-			linear_error = b2_max(linear_error, b2_abs(translation));
+			c2 = translation - self_.m_lower_translation;
+			linear_error = b2_max(linear_error, b2_abs(c2));
 			active = true;
 		} else if translation <= self_.m_lower_translation {
 			c2 = b2_min(translation - self_.m_lower_translation, 0.0);
-- 
2.43.0


From 13f95ca3cd8d4d590a0dafd61a0a1c305b256576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:20 +0000
Subject: [PATCH 09/17] fix: wheel joint with equal limits is corrected towards
 the limit

---
 src/private/dynamics/joints/b2_wheel_joint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index 6015134..6f8e56d 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -303,7 +303,7 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		let mut c: f32 = 0.0;
 		let translation: f32 = b2_dot(ax, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c = translation;
+			c = translation - self_.m_lower_translation;
 		} else if translation <= self_.m_lower_translation {
 			c = b2_min(translation - self_.m_lower_translation, 0.0);
 		} else if translation >= self_.m_upper_translation {
-- 
2.43.0


From 23b149f836477d18683cd019fbeffae99af22eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:19:35 +0000
Subject: [PATCH 10/17] fix: rope corner with three pinned vertices no longer
 divides by zero

---
 src/private/rope/b2_rope.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 9ebfe3e..4751d9e 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -382,6 +382,10 @@ pub(crate) fn solve_bend_pbd_angle(_self: &mut B2rope) {
 			sum = c.inv_effective_mass;
 		}
 
+		if sum == 0.0 {
+			continue;
+		}
+
 		let impulse: f32 = -stiffness * angle / sum;
 
 		p1 += (c.inv_mass1 * impulse) * j1;
@@ -635,6 +639,10 @@ fn solve_bend_pbd_triangle(_self: &mut B2rope)
 		let wb1: f32 = c.inv_mass3;
 
 		let w: f32 = wb0 + wb1 + 2.0 * wv;
+		if w == 0.0 {
+			continue;
+		}
+
 		let inv_w: f32 = stiffness / w;
 
 		let d: B2vec2 = v - (1.0 / 3.0) * (b0 + v + b1);
-- 
2.43.0


From f8ef6546a793e8ba29d04136353091b76890308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:19:35 +0000
Subject: [PATCH 11/17] fix: rope springs of zero stiffness no longer divide by
 zero

---
 src/private/rope/b2_rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 4751d9e..013d30f 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -306,7 +306,7 @@ pub(crate) fn solve_stretch_xpbd(_self: &mut B2rope, dt: f32) {
 		let j2: B2vec2 = u;
 
 		let sum: f32 = c.inv_mass1 + c.inv_mass2;
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
@@ -449,7 +449,7 @@ pub(crate) fn solve_bend_xpbd_angle(_self: &mut B2rope, dt: f32) {
 				+ c.inv_mass3 * b2_dot(j3, j3);
 		}
 
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
-- 
2.43.0


From 97fad7bd47357bf11a844d7714820eeeb80fec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:19:35 +0000
Subject: [PATCH 12/17] fix: rope height bending skips corners without
 bind-pose coordinates

---
 src/private/rope/b2_rope.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 013d30f..b447ff2 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -84,6 +84,8 @@ pub(crate) fn create(_self: &mut B2rope, def: &B2ropeDef) {
 		c.l1 = b2_distance_vec2(p1, p2);
 		c.l2 = b2_distance_vec2(p2, p3);
 		c.lambda = 0.0;
+		c.alpha1 = 0.0;
+		c.alpha2 = 0.0;
 
 		// Pre-compute effective mass (TODO use flattened config)
 		let e1: B2vec2 = p2 - p1;
@@ -588,6 +590,11 @@ pub(crate) fn solve_bend_pbd_height(_self: &mut B2rope) {
 		let mut p2: B2vec2 = _self.m_positions[c.i2 as usize].m_ps;
 		let mut p3: B2vec2 = _self.m_positions[c.i3 as usize].m_ps;
 
+		// There are no coordinates when the ends coincide in the bind pose
+		if c.alpha1 == 0.0 && c.alpha2 == 0.0 {
+			continue;
+		}
+
 		// Barycentric coordinates are held constant
 		let d: B2vec2 = c.alpha1 * p1 + c.alpha2 * p3 - p2;
 		let d_len: f32 = d.length();
-- 
2.43.0


From 0741173d17dd9174027ef37cb86ca45ae4901599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:27 +0000
Subject: [PATCH 13/17] fix: rebuilding and validating an empty dynamic tree no
 longer panics

---
 src/private/collision/b2_dynamic_tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/collision/b2_dynamic_tree.rs b/src/private/collision/b2_dynamic_tree.rs
index 55619a4..805abcd 100644
--- a/src/private/collision/b2_dynamic_tree.rs
+++ b/src/private/collision/b2_dynamic_tree.rs
@@ -537,6 +537,10 @@ pub fn compute_height_by_node<T: Clone + Default>(
 }
 
 pub fn compute_height<T: Clone + Default>(self_: &B2dynamicTree<T>) -> i32 {
+	if self_.m_root == B2_NULL_NODE {
+		return 0;
+	}
+
 	let height: i32 = compute_height_by_node(self_, self_.m_root);
 	return height;
 }
@@ -718,7 +722,7 @@ pub fn rebuild_bottom_up<T: Clone + Default>(self_: &mut B2dynamicTree<T>) {
 		count-=1;
 	}
 
-	self_.m_root = nodes[0];
+	self_.m_root = if count > 0 { nodes[0] } else { B2_NULL_NODE };
 
 	self_.validate();
 }
-- 
2.43.0


From 5006328ea498abcf8dc299eed56656d20aaebbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:11 +0000
Subject: [PATCH 14/17] fix: refiltering a mutably borrowed fixture no longer
 panics

---
 src/private/dynamics/b2_fixture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/dynamics/b2_fixture.rs b/src/private/dynamics/b2_fixture.rs
index 6c118cf..60778d4 100644
--- a/src/private/dynamics/b2_fixture.rs
+++ b/src/private/dynamics/b2_fixture.rs
@@ -193,7 +193,7 @@ pub fn b2_fixture_refilter<T:UserDataType>(self_: &mut B2fixture<T>) {
 		let mut contact = contact.borrow_mut();
 		let fixture_a = contact.get_base().get_fixture_a();
 		let fixture_b = contact.get_base().get_fixture_b();
-		if ptr::eq(&*fixture_a.borrow(),self_) || ptr::eq(&*fixture_b.borrow(),self_)
+		if ptr::eq(fixture_a.as_ptr(),self_) || ptr::eq(fixture_b.as_ptr(),self_)
 		{
 			contact.get_base_mut().flag_for_filtering();
 		}
-- 
2.43.0


From 25656964e25010c7c3e598e4760d92a17564a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:16:44 +0000
Subject: [PATCH 15/17] fix: loaded joints connect the bodies and joints they
 were saved with

Saved joints refer to bodies, and gears to joints, by position in the saved
list. Loading pushes each element to the front of its list, so looking the
position up in the loaded list picked the mirrored element.
---
 src/serialize/serialize_b2_world.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 827e142..f880f9b 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -177,6 +177,13 @@ impl<D: UserDataType> Serialize for B2world<D> {
     }
 }
 
+/// Loading pushes each element to the front of its list, so the saved order is the reverse of the list order.
+fn in_saved_order<T>(list: impl Iterator<Item = T>) -> Vec<T> {
+    let mut elements: Vec<T> = list.collect();
+    elements.reverse();
+    return elements;
+}
+
 pub struct B2worldDeserializeResult<U: UserDataType> {
     pub world: B2worldPtr<U>,
 }
@@ -224,7 +231,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_body_array;
                 {
-                    m_body_array = Rc::new(RefCell::new(world.borrow().m_body_list.iter().collect::<Vec<_>>()));
+                    m_body_array = Rc::new(RefCell::new(in_saved_order(world.borrow().m_body_list.iter())));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -236,7 +243,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_all_joints;
                 {
-                    m_all_joints = Rc::new(RefCell::new(world.borrow().m_joint_list.iter().collect::<Vec<_>>()));
+                    m_all_joints = Rc::new(RefCell::new(in_saved_order(world.borrow().m_joint_list.iter())));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -268,7 +275,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_world: world.clone().unwrap(),
                             })?;
 
-                            m_body_array = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_body_list.iter().collect::<Vec<_>>())));
+                            m_body_array = Some(Rc::new(RefCell::new(in_saved_order(world.as_ref().unwrap().borrow().m_body_list.iter()))));
                         }
                         Field::m_joints_list => {                          
  
@@ -278,7 +285,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_all_joints: Rc::default()
                             })?;
 
-                            m_all_joints = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_joint_list.iter().collect::<Vec<_>>())));
+                            m_all_joints = Some(Rc::new(RefCell::new(in_saved_order(world.as_ref().unwrap().borrow().m_joint_list.iter()))));
                         }
                         Field::m_gear_joints_list => {                          
 
-- 
2.43.0


From df0f20f6c43f052282333b433aad1c24c7b23c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:16:44 +0000
Subject: [PATCH 16/17] fix: saving a world with a mouse joint keeps joint
 numbering intact

Mouse joints are not saved, but they were counted in the length of the list
and in the numbers gears use to refer to their joints.
---
 src/serialize/serialize_b2_world.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index f880f9b..f4c19ef 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -149,7 +149,11 @@ impl<D: UserDataType> Serialize for B2world<D> {
         for ref b in self.m_joint_list.iter(){
             let mut j = b.borrow_mut();
             j.get_base_mut().m_index = -1;
-            if j.get_base().m_type!=B2jointType::EGearJoint
+            if j.get_base().m_type==B2jointType::EMouseJoint
+            {
+                // not saved, so it takes no index
+            }
+            else if j.get_base().m_type!=B2jointType::EGearJoint
             {
                 not_gear_joint.push(b.clone());
             }
-- 
2.43.0


From 715a3ad8ca0f12b2639ea456424360515476706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:16:44 +0000
Subject: [PATCH 17/17] fix: a loaded body keeps its velocity when its mass
 centre is off its origin

The saved definition carried the velocity of the mass centre, and adding the
fixtures on load shifted it to the mass centre once more.
---
 src/serialize/serialize_b2_body.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_body.rs b/src/serialize/serialize_b2_body.rs
index a80c628..3afa852 100644
--- a/src/serialize/serialize_b2_body.rs
+++ b/src/serialize/serialize_b2_body.rs
@@ -11,6 +11,7 @@ use std::rc::{Rc};
 use std::cell::RefCell;
 
 use crate::b2_body::*;
+use crate::b2_math::*;
 use crate::b2rs_common::UserDataType;
 use crate::b2_joint::*;
 use crate::b2_world::*;
@@ -40,7 +41,8 @@ impl<D: UserDataType> B2bodyToDef<D> for B2body<D> {
             body_type: self.m_type,
             position: self.m_xf.p,
             angle: self.m_sweep.a,
-            linear_velocity: self.m_linear_velocity,
+            // A definition holds the velocity of the origin, the body that of its mass centre.
+            linear_velocity: self.get_linear_velocity_from_local_point(B2vec2::zero()),
             angular_velocity: self.m_angular_velocity,
             linear_damping: self.m_linear_damping,
             angular_damping: self.m_angular_damping,
-- 
2.43.0

