From 43844123e54dc5f76b7fb9bbc7048259dab9f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 01/41] fix: keep enforcing the joint limits when the measured
 position or velocity is NaN

---
 joint_limits/src/joint_limits_helpers.cpp | 13 ++++++++-----
 joint_limits/src/joint_soft_limiter.cpp   |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..5fd922b 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -119,10 +119,11 @@ PositionLimits compute_position_limits(
     /// position would be too conservative — there is typically a couple of cycles of delay between
     /// the command and the robot state. Fall back to actual position when no previous command
     /// exists (e.g., first position command after operating in another mode). Skip
-    /// velocity-constrained narrowing entirely when neither reference is available.
+    /// velocity-constrained narrowing entirely when neither reference is available (or known yet).
     const std::optional<double> & pos_ref =
-      prev_command_pos.has_value() ? prev_command_pos : act_pos;
-    if (pos_ref.has_value())
+      (prev_command_pos.has_value() && !std::isnan(prev_command_pos.value())) ? prev_command_pos
+                                                                              : act_pos;
+    if (pos_ref.has_value() && !std::isnan(pos_ref.value()))
     {
       const double position_reference = pos_ref.value();
       pos_limits.lower_limit = std::max(
@@ -146,7 +147,7 @@ VelocityLimits compute_velocity_limits(
       -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
   }
   VelocityLimits vel_limits(-limits.max_velocity, limits.max_velocity);
-  if (limits.has_position_limits && act_pos.has_value())
+  if (limits.has_position_limits && act_pos.has_value() && !std::isnan(act_pos.value()))
   {
     const double actual_pos = act_pos.value();
     const double max_vel_with_pos_limits = (limits.max_position - actual_pos) / dt;
@@ -186,7 +187,9 @@ VelocityLimits compute_velocity_limits(
       }
     }
   }
-  if (limits.has_acceleration_limits && prev_command_vel.has_value())
+  if (
+    limits.has_acceleration_limits && prev_command_vel.has_value() &&
+    !std::isnan(prev_command_vel.value()))
   {
     const double delta_vel = limits.max_acceleration * dt;
     vel_limits.lower_limit = std::max(prev_command_vel.value() - delta_vel, vel_limits.lower_limit);
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..46b238e 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -212,7 +212,7 @@ bool JointSoftLimiter::on_enforce(
 
     if (
       hard_limits.has_velocity_limits && hard_limits.has_acceleration_limits &&
-      actual.has_velocity())
+      actual.has_velocity() && !std::isnan(actual.velocity.value()))
     {
       soft_min_vel =
         std::max(actual.velocity.value() - hard_limits.max_acceleration * dt_seconds, soft_min_vel);
@@ -238,7 +238,7 @@ bool JointSoftLimiter::on_enforce(
 
     if (
       hard_limits.has_effort_limits && std::isfinite(soft_joint_limits.k_velocity) &&
-      actual.has_velocity())
+      actual.has_velocity() && !std::isnan(actual.velocity.value()))
     {
       soft_min_eff = std::clamp(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_min_vel),
-- 
2.43.0


From f093e14e98ce18fb2f6147bb177cc0dad0818336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 02/41] fix: never let the velocity limits window exceed the
 hard velocity limits

---
 joint_limits/src/joint_limits_helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5fd922b..1c3b3dd 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -196,6 +196,12 @@ VelocityLimits compute_velocity_limits(
     vel_limits.upper_limit = std::min(prev_command_vel.value() + delta_vel, vel_limits.upper_limit);
   }
   internal::check_and_swap_limits(vel_limits.lower_limit, vel_limits.upper_limit);
+  // The windows above may lie beyond the velocity limits (e.g., the reference velocity exceeds them
+  // or the joint is slightly out of its position limits), so the hard limits have the last word
+  vel_limits.lower_limit =
+    std::clamp(vel_limits.lower_limit, -limits.max_velocity, limits.max_velocity);
+  vel_limits.upper_limit =
+    std::clamp(vel_limits.upper_limit, -limits.max_velocity, limits.max_velocity);
   return vel_limits;
 }
 
-- 
2.43.0


From 7f21c9154e2871bd7e75b3fbd4e8aec232d8ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 03/41] fix: pass position and jerk commands through when their
 limits are disabled

---
 joint_limits/src/joint_limits_helpers.cpp | 7 ++++++-
 joint_limits/src/joint_range_limiter.cpp  | 2 +-
 joint_limits/src/joint_soft_limiter.cpp   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 1c3b3dd..6503447 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -105,7 +105,12 @@ PositionLimits compute_position_limits(
   const std::optional<double> & act_vel, const std::optional<double> & act_pos,
   const std::optional<double> & prev_command_pos, double dt)
 {
-  PositionLimits pos_limits(limits.min_position, limits.max_position);
+  PositionLimits pos_limits(
+    -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
+  if (limits.has_position_limits)
+  {
+    pos_limits = PositionLimits(limits.min_position, limits.max_position);
+  }
   internal::verify_actual_position_within_limits(joint_name, act_pos, limits);
   if (limits.has_velocity_limits)
   {
diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 5b94914..6d775a6 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -166,7 +166,7 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (joint_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -joint_limits.max_jerk, joint_limits.max_jerk) ||
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 46b238e..c3345c7 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -268,7 +268,7 @@ bool JointSoftLimiter::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (hard_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -hard_limits.max_jerk, hard_limits.max_jerk) ||
-- 
2.43.0


From 539e3f2f42567d43e0f9b1ccc9f4f9e8e5bf164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 04/41] fix: keep the soft limiter's position and velocity
 commands within the hard limits

---
 joint_limits/src/joint_soft_limiter.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index c3345c7..160a7a8 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -198,6 +198,12 @@ bool JointSoftLimiter::on_enforce(
     {
       pos_low = vel_clamped_pos_low;
       pos_high = vel_clamped_pos_high;
+      // The fallback must not leave the hard position limits
+      if (hard_limits.has_position_limits)
+      {
+        pos_low = std::clamp(pos_low, hard_limits.min_position, hard_limits.max_position);
+        pos_high = std::clamp(pos_high, hard_limits.min_position, hard_limits.max_position);
+      }
     }
 
     limits_enforced = is_limited(desired.position.value(), pos_low, pos_high);
@@ -222,6 +228,16 @@ bool JointSoftLimiter::on_enforce(
 
     soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
     soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // If the acceleration window and the soft limits do not overlap, apply the slowest of the bounds
+    // that are in conflict, and never leave the hard velocity limits
+    soft_min_vel = std::min(soft_min_vel, velocity_limits.upper_limit);
+    soft_max_vel = std::max(soft_max_vel, velocity_limits.lower_limit);
+    if (soft_min_vel > soft_max_vel)
+    {
+      soft_min_vel =
+        std::fabs(soft_min_vel) < std::fabs(soft_max_vel) ? soft_min_vel : soft_max_vel;
+      soft_max_vel = soft_min_vel;
+    }
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
-- 
2.43.0


From ab58f9a13a223c961edbdf2b9d8b94e2013535d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 05/41] fix: soft limiter no longer lets any effort pass when
 the velocity is unbounded and k_velocity is zero

---
 joint_limits/src/joint_soft_limiter.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 160a7a8..8af767c 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -256,13 +256,20 @@ bool JointSoftLimiter::on_enforce(
       hard_limits.has_effort_limits && std::isfinite(soft_joint_limits.k_velocity) &&
       actual.has_velocity() && !std::isnan(actual.velocity.value()))
     {
-      soft_min_eff = std::clamp(
-        -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_min_vel),
-        -hard_limits.max_effort, hard_limits.max_effort);
-
-      soft_max_eff = std::clamp(
-        -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_max_vel),
-        -hard_limits.max_effort, hard_limits.max_effort);
+      // An unbounded velocity does not bound the effort: with a zero gain the product would be NaN
+      soft_min_eff =
+        std::isfinite(soft_min_vel)
+          ? std::clamp(
+              -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_min_vel),
+              -hard_limits.max_effort, hard_limits.max_effort)
+          : -hard_limits.max_effort;
+
+      soft_max_eff =
+        std::isfinite(soft_max_vel)
+          ? std::clamp(
+              -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_max_vel),
+              -hard_limits.max_effort, hard_limits.max_effort)
+          : hard_limits.max_effort;
 
       soft_min_eff = std::max(soft_min_eff, effort_limits.lower_limit);
       soft_max_eff = std::min(soft_max_eff, effort_limits.upper_limit);
-- 
2.43.0


From 134f065c0fdf270a3c6d31e286cf89e8ef0d10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 06/41] fix: soft limiter returns to the soft range no faster
 than the hard velocity limit

---
 joint_limits/src/joint_soft_limiter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 8af767c..f536bf5 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -159,7 +159,8 @@ bool JointSoftLimiter::on_enforce(
         (act_position < soft_joint_limits.min_position) ||
         (act_position > soft_joint_limits.max_position))
       {
-        const double soft_limit_reach_velocity = 1.0 * (M_PI / 180.0);
+        const double soft_limit_reach_velocity =
+          std::min(1.0 * (M_PI / 180.0), hard_limits.max_velocity);
         soft_min_vel = std::copysign(soft_limit_reach_velocity, soft_min_vel);
         soft_max_vel = std::copysign(soft_limit_reach_velocity, soft_max_vel);
       }
-- 
2.43.0


From 976e9f22ba1a0f1dc72e553bf736cd38c2520fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 07/41] fix: reject a switch giving away interfaces of a
 controller restarted by the same request

check_for_interfaces_availability_to_activate counted the command interfaces
of every controller to deactivate as available, also when the same request
re-activates that controller. A strict switch with such a conflict was accepted
and failed half-way, leaving controllers deactivated.
---
 controller_manager/src/controller_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..ef5a682 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4326,6 +4326,11 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
   std::vector<std::string> future_available_cmd_interfaces = {};
   for (const auto & controller_name : deactivation_list)
   {
+    if (ros2_control::has_item(activation_list, controller_name))
+    {
+      // a controller that is restarted by the same request keeps its command interfaces
+      continue;
+    }
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
-- 
2.43.0


From d6ba3e519cd45df9bbb220c5b3185245f024000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 08/41] fix: do not take the interfaces away from a controller
 that refused to deactivate

deactivate_controllers released the loaned interfaces even when the
controller's on_deactivate returned FAILURE and it stayed active. It was then
updated without any interface, while another controller could claim them.
---
 controller_manager/src/controller_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ef5a682..fa78e29 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2555,6 +2555,14 @@ void ControllerManager::deactivate_controllers(
       try
       {
         const auto new_state = controller->get_node()->deactivate();
+        if (is_controller_active(*controller))
+        {
+          // the controller refused to deactivate and keeps being updated with its interfaces
+          RCLCPP_ERROR(
+            get_logger(), "Controller '%s' refused to be deactivated and is still active.",
+            controller_name.c_str());
+          continue;
+        }
         controller->release_interfaces();
 
         // if it is a chainable controller, make the reference interfaces unavailable on
-- 
2.43.0


From 5f1f0c7dc0bbb8f75f0b27ae86c858049cd6d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 09/41] fix: update every controller after all its preceding
 controllers

Inserting the controllers one after the other in the ordered list does not
respect all the dependencies when a controller has several preceding and
following controllers (e.g., a -> b -> c -> d with a -> d).
---
 .../controller_manager/controller_manager.hpp |  6 +++
 controller_manager/src/controller_manager.cpp | 37 +++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..b48a79b 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -522,6 +522,12 @@ private:
     const std::string & ctrl_name, std::vector<std::string>::iterator controller_iterator,
     bool append_to_controller);
 
+  /**
+   * @brief Reorders the ordered list of controllers such that every controller comes after all its
+   * preceding controllers, keeping the current order wherever it is not in conflict with that.
+   */
+  void ensure_controllers_order();
+
   /**
    * @brief Build the controller chain topology information based on the provided controllers.
    *  This method constructs a directed graph representing the dependencies between controllers.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index fa78e29..32fb632 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1791,6 +1791,8 @@ controller_interface::return_type ControllerManager::configure_controller(
     }
   }
 
+  ensure_controllers_order();
+
   std::vector<ControllerSpec> new_list;
   for (const auto & ctrl : ordered_controllers_names_)
   {
@@ -4901,6 +4903,41 @@ void ControllerManager::update_list_with_controller_chain(
   }
 }
 
+void ControllerManager::ensure_controllers_order()
+{
+  // Inserting one controller after the other does not respect all the dependencies when a
+  // controller has several preceding and following controllers: pick always the first controller
+  // of the list whose preceding controllers are all placed already
+  std::vector<std::string> sorted_names;
+  sorted_names.reserve(ordered_controllers_names_.size());
+  std::vector<std::string> remaining_names = ordered_controllers_names_;
+  while (!remaining_names.empty())
+  {
+    auto next_it = std::find_if(
+      remaining_names.begin(), remaining_names.end(),
+      [&](const std::string & name)
+      {
+        const auto & chain_spec = controller_chain_spec_[name];
+        return std::none_of(
+          chain_spec.preceding_controllers.begin(), chain_spec.preceding_controllers.end(),
+          [&](const std::string & preceding)
+          {
+            // controllers that both precede and follow each other have no particular order
+            return ros2_control::has_item(remaining_names, preceding) &&
+                   !ros2_control::has_item(chain_spec.following_controllers, preceding);
+          });
+      });
+    if (next_it == remaining_names.end())
+    {
+      // cyclic dependencies, keep the current order
+      next_it = remaining_names.begin();
+    }
+    sorted_names.push_back(*next_it);
+    remaining_names.erase(next_it);
+  }
+  ordered_controllers_names_ = sorted_names;
+}
+
 void ControllerManager::build_controllers_topology_info(
   const std::vector<ControllerSpec> & controllers)
 {
-- 
2.43.0


From a17f788b37cdaf4846652d1bd69acb385e8f73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 10/41] fix: do not recurse forever when controllers use each
 other's interfaces

A controller commanding the reference of a controller that reads a state
exported by it made check_following_controllers_for_activate overflow the
stack of the controller manager.
---
 .../controller_manager/controller_manager.hpp        |  4 +++-
 controller_manager/src/controller_manager.cpp        | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index b48a79b..6d5d5f3 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -441,13 +441,15 @@ private:
    * \param[in] controller_it iterator to the controller for which the following controllers are
    * \param[out] message describing the result of the check.
    * checked.
+   * \param[in] checked_controllers names of the preceding controllers that are being checked.
    *
    * \returns return_type::OK if all following controllers pass the checks, otherwise
    * return_type::ERROR.
    */
   controller_interface::return_type check_following_controllers_for_activate(
     const std::vector<ControllerSpec> & controllers, int strictness,
-    const ControllersListIterator controller_it, std::string & message);
+    const ControllersListIterator controller_it, std::string & message,
+    std::vector<std::string> checked_controllers = {});
 
   /// Check if all the preceding controllers will be in inactive state after controllers' switch.
   /**
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32fb632..093ba41 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3901,13 +3901,21 @@ void ControllerManager::propagate_deactivation_of_chained_mode(
 
 controller_interface::return_type ControllerManager::check_following_controllers_for_activate(
   const std::vector<ControllerSpec> & controllers, int strictness,
-  const ControllersListIterator controller_it, std::string & message)
+  const ControllersListIterator controller_it, std::string & message,
+  std::vector<std::string> checked_controllers)
 {
   // we assume that the controller exists is checked in advance
   RCLCPP_DEBUG(
     get_logger(), "Checking following controllers of preceding controller with name '%s'.",
     controller_it->info.name.c_str());
 
+  // controllers that use each other's interfaces must not be checked forever
+  if (ros2_control::has_item(checked_controllers, controller_it->info.name))
+  {
+    return controller_interface::return_type::OK;
+  }
+  checked_controllers.push_back(controller_it->info.name);
+
   const auto controller_cmd_interfaces =
     get_command_interfaces_names(controller_it->c, resource_manager_);
   const auto controller_state_interfaces =
@@ -3999,7 +4007,7 @@ controller_interface::return_type ControllerManager::check_following_controllers
     // controller update chained mode requests
     if (
       check_following_controllers_for_activate(
-        controllers, strictness, following_ctrl_it, message) ==
+        controllers, strictness, following_ctrl_it, message, checked_controllers) ==
       controller_interface::return_type::ERROR)
     {
       return controller_interface::return_type::ERROR;
-- 
2.43.0


From 9911bf0081fd1f74da74420059823208e79260e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 11/41] fix: keep chained mode and exported interfaces
 consistent with the active controllers

The chained mode of a controller is derived from the final requests instead of being
accumulated while they are checked: it stayed set (or was left unset) when a best-effort
switch dropped a controller, when only the state interfaces were used or when the chain was
restarted. A request dropped by a best-effort switch may be needed by the other ones, so they
are checked again. The exported interfaces of controllers that are not activated in the end do
not stay available, and a restarted controller needs its following controllers too.
---
 .../controller_manager/controller_manager.hpp |   6 +-
 controller_manager/src/controller_manager.cpp | 395 +++++++++---------
 2 files changed, 199 insertions(+), 202 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 6d5d5f3..3d8969d 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -412,12 +412,12 @@ private:
     const std::string & rt_cycle_name);
 
   /**
-   * If a controller is deactivated all following controllers (if any exist) should be switched
-   * 'from' the chained mode.
+   * Find out which controllers have to be switched 'to' and 'from' the chained mode: after the
+   * switch, controllers are in chained mode if an active controller uses their references.
    *
    * \param[in] controllers list with controllers.
    */
-  void propagate_deactivation_of_chained_mode(const std::vector<ControllerSpec> & controllers);
+  void determine_chained_mode_requests(const std::vector<ControllerSpec> & controllers);
 
   /// Check if all the following controllers will be in active state and in the chained mode
   /// after controllers' switch.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 093ba41..e8f1f12 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2040,144 +2040,177 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
-  // if a preceding controller is deactivated, all first-level controllers should be switched 'from'
-  // chained mode
-  propagate_deactivation_of_chained_mode(controllers);
+  // the checks below make the exported interfaces of controllers to activate available, take that
+  // back for the controllers that are not active at the end
+  const std::shared_ptr<void> exported_interfaces_guard(
+    nullptr,
+    [this, &guard](void *)
+    {
+      for (const auto & controller : rt_controllers_wrapper_.get_updated_list(guard))
+      {
+        if (controller.c->is_chainable() && is_controller_inactive(*controller.c))
+        {
+          resource_manager_->make_controller_exported_state_interfaces_unavailable(
+            controller.info.name);
+          resource_manager_->make_controller_reference_interfaces_unavailable(controller.info.name);
+        }
+      }
+    });
 
-  // check if controllers should be switched 'to' chained mode when controllers are activated
-  for (auto ctrl_it = switch_params_.activate_request.begin();
-       ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
+  // a controller that can not be switched may be needed by the other ones, so all of them have to
+  // be checked again when the requests have changed
+  bool requests_changed = true;
+  while (requests_changed)
   {
-    auto controller_it = std::find_if(
-      controllers.begin(), controllers.end(),
-      std::bind(controller_name_compare, std::placeholders::_1, *ctrl_it));
-    controller_interface::return_type status = controller_interface::return_type::OK;
+    requests_changed = false;
 
-    // if controller is not inactive then do not do any following-controllers checks
-    if (is_controller_unconfigured(*controller_it->c))
-    {
-      message = fmt::format(
-        FMT_COMPILE(
-          "Controller with name '{}' is in 'unconfigured' state. The controller needs to be "
-          "configured to be in 'inactive' state before it can be checked and activated."),
-        controller_it->info.name);
-      RCLCPP_WARN(get_logger(), "%s", message.c_str());
-      status = controller_interface::return_type::ERROR;
-    }
-    else if (is_controller_active(controller_it->c))
+    // check if controllers can be activated
+    for (auto ctrl_it = switch_params_.activate_request.begin();
+         ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
     {
-      if (
-        std::find(
-          switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          controller_it->info.name) == switch_params_.deactivate_request.end())
+      auto controller_it = std::find_if(
+        controllers.begin(), controllers.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, *ctrl_it));
+      controller_interface::return_type status = controller_interface::return_type::OK;
+
+      // if controller is not inactive then do not do any following-controllers checks
+      if (is_controller_unconfigured(*controller_it->c))
       {
         message = fmt::format(
-          FMT_COMPILE("Controller with name '{}' is already active."), controller_it->info.name);
+          FMT_COMPILE(
+            "Controller with name '{}' is in 'unconfigured' state. The controller needs to be "
+            "configured to be in 'inactive' state before it can be checked and activated."),
+          controller_it->info.name);
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
+        status = controller_interface::return_type::ERROR;
+      }
+      else if (is_controller_active(controller_it->c))
+      {
+        if (
+          std::find(
+            switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
+            controller_it->info.name) == switch_params_.deactivate_request.end())
+        {
+          message = fmt::format(
+            FMT_COMPILE("Controller with name '{}' is already active."), controller_it->info.name);
+          RCLCPP_WARN(get_logger(), "%s", message.c_str());
+          RCLCPP_WARN(get_logger(), "%s", message.c_str());
+          status = controller_interface::return_type::ERROR;
+        }
+        else
+        {
+          // the controller is restarted
+          status = check_following_controllers_for_activate(
+            controllers, strictness, controller_it, message);
+        }
+      }
+      else if (!is_controller_inactive(controller_it->c))
+      {
+        message = fmt::format(
+          FMT_COMPILE(
+            "Controller with name '{}' is not in 'inactive' state. The controller needs to be in "
+            "'inactive' state before it can be checked and activated."),
+          controller_it->info.name);
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         status = controller_interface::return_type::ERROR;
       }
-    }
-    else if (!is_controller_inactive(controller_it->c))
-    {
-      message = fmt::format(
-        FMT_COMPILE(
-          "Controller with name '{}' is not in 'inactive' state. The controller needs to be in "
-          "'inactive' state before it can be checked and activated."),
-        controller_it->info.name);
-      RCLCPP_WARN(get_logger(), "%s", message.c_str());
-      status = controller_interface::return_type::ERROR;
-    }
-    else
-    {
-      status =
-        check_following_controllers_for_activate(controllers, strictness, controller_it, message);
-    }
-
-    if (status == controller_interface::return_type::OK)
-    {
-      status = check_fallback_controllers_state_pre_activation(controllers, controller_it, message);
-    }
+      else
+      {
+        status =
+          check_following_controllers_for_activate(controllers, strictness, controller_it, message);
+      }
 
-    if (status != controller_interface::return_type::OK)
-    {
-      RCLCPP_WARN(
-        get_logger(),
-        "Could not activate controller with name '%s'. Check above warnings for more details. "
-        "Check the state of the controllers and their required interfaces using "
-        "`ros2 control list_controllers -v` CLI to get more information.",
-        (*ctrl_it).c_str());
-      if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
+      if (status == controller_interface::return_type::OK)
       {
-        // TODO(destogl): automatic manipulation of the chain:
-        // || strictness ==
-        //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
-        switch_params_.activate_request.erase(ctrl_it);
-        message.clear();
-        --ctrl_it;
+        status =
+          check_fallback_controllers_state_pre_activation(controllers, controller_it, message);
       }
-      if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
+
+      if (status != controller_interface::return_type::OK)
       {
-        RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
-        // reset all lists
-        clear_requests();
-        return controller_interface::return_type::ERROR;
+        RCLCPP_WARN(
+          get_logger(),
+          "Could not activate controller with name '%s'. Check above warnings for more details. "
+          "Check the state of the controllers and their required interfaces using "
+          "`ros2 control list_controllers -v` CLI to get more information.",
+          (*ctrl_it).c_str());
+        if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
+        {
+          // TODO(destogl): automatic manipulation of the chain:
+          // || strictness ==
+          // controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
+          // remove controller that can not be activated from the activation request and step-back
+          // iterator to correctly step to the next element in the list in the loop
+          switch_params_.activate_request.erase(ctrl_it);
+          message.clear();
+          --ctrl_it;
+          requests_changed = true;
+        }
+        if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
+        {
+          RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
+          // reset all lists
+          clear_requests();
+          return controller_interface::return_type::ERROR;
+        }
       }
     }
-  }
-
-  // check if controllers should be deactivated if used in chained mode
-  for (auto ctrl_it = switch_params_.deactivate_request.begin();
-       ctrl_it != switch_params_.deactivate_request.end(); ++ctrl_it)
-  {
-    auto controller_it = std::find_if(
-      controllers.begin(), controllers.end(),
-      std::bind(controller_name_compare, std::placeholders::_1, *ctrl_it));
-    controller_interface::return_type status = controller_interface::return_type::OK;
 
-    // if controller is not active then skip preceding-controllers checks
-    if (!is_controller_active(controller_it->c))
+    // check if controllers should be deactivated if used in chained mode
+    for (auto ctrl_it = switch_params_.deactivate_request.begin();
+         ctrl_it != switch_params_.deactivate_request.end(); ++ctrl_it)
     {
-      message = fmt::format(
-        FMT_COMPILE("Controller with name '{}' can not be deactivated since it is not active."),
-        controller_it->info.name);
-      RCLCPP_WARN(get_logger(), "%s", message.c_str());
-      status = controller_interface::return_type::ERROR;
-    }
-    else
-    {
-      status =
-        check_preceding_controllers_for_deactivate(controllers, strictness, controller_it, message);
-    }
+      auto controller_it = std::find_if(
+        controllers.begin(), controllers.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, *ctrl_it));
+      controller_interface::return_type status = controller_interface::return_type::OK;
 
-    if (status != controller_interface::return_type::OK)
-    {
-      RCLCPP_WARN(
-        get_logger(),
-        "Could not deactivate controller with name '%s'. Check above warnings for more details. "
-        "Check the state of the controllers and their required interfaces using "
-        "`ros2 control list_controllers -v` CLI to get more information.",
-        (*ctrl_it).c_str());
-      if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
+      // if controller is not active then skip preceding-controllers checks
+      if (!is_controller_active(controller_it->c))
       {
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
-        switch_params_.deactivate_request.erase(ctrl_it);
-        message.clear();
-        --ctrl_it;
+        message = fmt::format(
+          FMT_COMPILE("Controller with name '{}' can not be deactivated since it is not active."),
+          controller_it->info.name);
+        RCLCPP_WARN(get_logger(), "%s", message.c_str());
+        status = controller_interface::return_type::ERROR;
       }
-      if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
+      else
       {
-        RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
-        // reset all lists
-        clear_requests();
-        return controller_interface::return_type::ERROR;
+        status = check_preceding_controllers_for_deactivate(
+          controllers, strictness, controller_it, message);
+      }
+
+      if (status != controller_interface::return_type::OK)
+      {
+        RCLCPP_WARN(
+          get_logger(),
+          "Could not deactivate controller with name '%s'. Check above warnings for more details. "
+          "Check the state of the controllers and their required interfaces using "
+          "`ros2 control list_controllers -v` CLI to get more information.",
+          (*ctrl_it).c_str());
+        if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
+        {
+          // remove controller that can not be activated from the activation request and step-back
+          // iterator to correctly step to the next element in the list in the loop
+          switch_params_.deactivate_request.erase(ctrl_it);
+          message.clear();
+          --ctrl_it;
+          requests_changed = true;
+        }
+        if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
+        {
+          RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
+          // reset all lists
+          clear_requests();
+          return controller_interface::return_type::ERROR;
+        }
       }
     }
   }
 
+  // find out which controllers have to be switched 'to' and 'from' chained mode
+  determine_chained_mode_requests(controllers);
+
   // Check after the check if the activate and deactivate list is empty or not
   if (switch_params_.activate_request.empty() && switch_params_.deactivate_request.empty())
   {
@@ -3844,57 +3877,54 @@ void ControllerManager::perform_hardware_command_mode_change(
   }
 }
 
-void ControllerManager::propagate_deactivation_of_chained_mode(
+void ControllerManager::determine_chained_mode_requests(
   const std::vector<ControllerSpec> & controllers)
 {
-  for (const auto & controller : controllers)
+  const auto will_be_active = [this](const ControllerSpec & controller)
   {
-    // get pointers to places in deactivate and activate lists ((de)activate lists have changed)
-    auto deactivate_list_it = std::find(
-      switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-      controller.info.name);
+    return ros2_control::has_item(switch_params_.activate_request, controller.info.name) ||
+           (is_controller_active(controller.c) &&
+            !ros2_control::has_item(switch_params_.deactivate_request, controller.info.name));
+  };
 
-    if (deactivate_list_it != switch_params_.deactivate_request.end())
+  // controllers whose reference interfaces are going to be used
+  std::vector<std::string> used_controllers;
+  for (const auto & controller : controllers)
+  {
+    if (!will_be_active(controller))
     {
-      // if controller is not active then skip adding following-controllers to "from" chained mode
-      // request
-      if (!is_controller_active(controller.c))
+      continue;
+    }
+    for (const auto & cmd_itf_name : get_command_interfaces_names(controller.c, resource_manager_))
+    {
+      ControllersListIterator following_ctrl_it;
+      if (is_interface_a_chained_interface(cmd_itf_name, controllers, following_ctrl_it))
       {
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Controller with name '%s' can not be deactivated since is not active. "
-          "The controller will be removed from the list later."
-          "Skipping adding following controllers to 'from' chained mode request.",
-          controller.info.name.c_str());
-        break;
+        ros2_control::add_item(used_controllers, following_ctrl_it->info.name);
       }
+    }
+  }
 
-      const auto ctrl_cmd_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
-      const auto ctrl_state_itf_names = get_state_interfaces_names(controller.c, resource_manager_);
-      auto ctrl_itf_names = ctrl_cmd_itf_names;
-      ctrl_itf_names.insert(
-        ctrl_itf_names.end(), ctrl_state_itf_names.begin(), ctrl_state_itf_names.end());
-      for (const auto & ctrl_itf_name : ctrl_itf_names)
-      {
-        // controller that 'cmd_tf_name' belongs to
-        ControllersListIterator following_ctrl_it;
-        if (is_interface_a_chained_interface(ctrl_itf_name, controllers, following_ctrl_it))
-        {
-          // currently iterated "controller" is preceding controller --> add following controller
-          // with matching interface name to "from" chained mode list (if not already in it)
-          if (
-            std::find(
-              switch_params_.from_chained_mode_request.begin(),
-              switch_params_.from_chained_mode_request.end(),
-              following_ctrl_it->info.name) == switch_params_.from_chained_mode_request.end())
-          {
-            switch_params_.from_chained_mode_request.push_back(following_ctrl_it->info.name);
-            RCLCPP_DEBUG(
-              get_logger(), "Adding controller '%s' in 'from chained mode' request.",
-              following_ctrl_it->info.name.c_str());
-          }
-        }
-      }
+  for (const auto & controller : controllers)
+  {
+    const bool is_used = ros2_control::has_item(used_controllers, controller.info.name);
+    const bool is_restarted =
+      ros2_control::has_item(switch_params_.deactivate_request, controller.info.name);
+    if (
+      is_used && will_be_active(controller) &&
+      (!controller.c->is_in_chained_mode() || is_restarted))
+    {
+      switch_params_.to_chained_mode_request.push_back(controller.info.name);
+      RCLCPP_DEBUG(
+        get_logger(), "Adding controller '%s' in 'to chained mode' request.",
+        controller.info.name.c_str());
+    }
+    else if (!is_used && controller.c->is_in_chained_mode())
+    {
+      switch_params_.from_chained_mode_request.push_back(controller.info.name);
+      RCLCPP_DEBUG(
+        get_logger(), "Adding controller '%s' in 'from chained mode' request.",
+        controller.info.name.c_str());
     }
   }
 }
@@ -3961,11 +3991,11 @@ controller_interface::return_type ControllerManager::check_following_controllers
 
     if (is_controller_active(following_ctrl_it->c))
     {
-      // will following controller be deactivated?
+      // will following controller be deactivated (and not restarted)?
       if (
-        std::find(
-          switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          following_ctrl_it->info.name) != switch_params_.deactivate_request.end())
+        ros2_control::has_item(
+          switch_params_.deactivate_request, following_ctrl_it->info.name) &&
+        !ros2_control::has_item(switch_params_.activate_request, following_ctrl_it->info.name))
       {
         if (
           (ros2_control::has_item(controller_state_interfaces, ctrl_itf_name) &&
@@ -4021,47 +4051,14 @@ controller_interface::return_type ControllerManager::check_following_controllers
     //   switch_params_.activate_request.insert(switch_params_.activate_request.begin(),
     //   following_ctrl_name);
     // }
-    if (!following_ctrl_it->c->is_in_chained_mode())
-    {
-      auto found_it = std::find(
-        switch_params_.to_chained_mode_request.begin(),
-        switch_params_.to_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it == switch_params_.to_chained_mode_request.end())
-      {
-        // if it is a chainable controller, make the reference interfaces available on preactivation
-        // (This is needed when you activate a couple of chainable controller altogether)
-        // make all the exported interfaces of the controller available
-        resource_manager_->make_controller_exported_state_interfaces_available(
-          following_ctrl_it->info.name);
-        if (
-          std::find(
-            controller_cmd_interfaces.begin(), controller_cmd_interfaces.end(), ctrl_itf_name) !=
-          controller_cmd_interfaces.end())
-        {
-          resource_manager_->make_controller_reference_interfaces_available(
-            following_ctrl_it->info.name);
-          switch_params_.to_chained_mode_request.push_back(following_ctrl_it->info.name);
-          RCLCPP_DEBUG(
-            get_logger(), "Adding controller '%s' in 'to chained mode' request.",
-            following_ctrl_it->info.name.c_str());
-        }
-      }
-    }
-    else
+    // make the exported interfaces available on preactivation (This is needed when you activate a
+    // couple of chainable controller altogether)
+    resource_manager_->make_controller_exported_state_interfaces_available(
+      following_ctrl_it->info.name);
+    if (ros2_control::has_item(controller_cmd_interfaces, ctrl_itf_name))
     {
-      // Check if following controller is in 'from' chained mode list and remove it, if so
-      auto found_it = std::find(
-        switch_params_.from_chained_mode_request.begin(),
-        switch_params_.from_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it != switch_params_.from_chained_mode_request.end())
-      {
-        switch_params_.from_chained_mode_request.erase(found_it);
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Removing controller '%s' in 'from chained mode' request because it "
-          "should stay in chained mode.",
-          following_ctrl_it->info.name.c_str());
-      }
+      resource_manager_->make_controller_reference_interfaces_available(
+        following_ctrl_it->info.name);
     }
   }
   return controller_interface::return_type::OK;
-- 
2.43.0


From 2116d0e5414c7a6e35c4026723f6085875c21e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 12/41] fix: leave no active controller without the controllers
 it uses after a failed activation

When a controller of a chain could not be activated, the exported interfaces of the controllers
skipped because of that stayed available, controllers using an inactive one stayed active and
controllers nobody uses any more stayed in chained mode.
---
 controller_manager/src/controller_manager.cpp | 109 +++++++++++++++---
 1 file changed, 93 insertions(+), 16 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e8f1f12..cb96ef0 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2687,6 +2687,16 @@ void ControllerManager::activate_controllers(
 {
   std::vector<std::string> failed_controllers_command_interfaces;
   bool is_successful = true;
+  const auto make_exported_interfaces_unavailable =
+    [this](const controller_interface::ControllerInterfaceBaseSharedPtr & controller)
+  {
+    if (controller->is_chainable())
+    {
+      const std::string controller_name = controller->get_node()->get_name();
+      resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+      resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+    }
+  };
   // Make all chainable interfaces available before activating controllers
   for (const auto & controller_name : controllers_to_activate)
   {
@@ -2763,6 +2773,7 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      make_exported_interfaces_unavailable(controller);
       continue;
     }
 
@@ -2791,6 +2802,7 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      make_exported_interfaces_unavailable(controller);
       continue;
     }
     controller->assign_interfaces(std::move(command_loans), std::move(state_loans));
@@ -2828,12 +2840,7 @@ void ControllerManager::activate_controllers(
       is_successful = false;
       controller->release_interfaces();
       ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);
-      if (controller->is_chainable())
-      {
-        // make all the exported interfaces of the controller unavailable
-        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
-        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
-      }
+      make_exported_interfaces_unavailable(controller);
       continue;
     }
 
@@ -2865,18 +2872,88 @@ void ControllerManager::activate_controllers(
         "Error switching back the interfaces in the hardware when the controller activation "
         "failed.");
     }
+    failed_controllers_command_interfaces.clear();
   }
-  // Now prepare and perform the stop interface switching as this is needed for exclusive
-  // interfaces
-  else if (
-    !failed_controllers_command_interfaces.empty() &&
-    (!resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
-     !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+  if (!is_successful)
   {
-    RCLCPP_ERROR(
-      get_logger(),
-      "Error switching back the interfaces in the hardware when the controller activation "
-      "failed.");
+    const auto uses_inactive_controller =
+      [this, &rt_controller_list](const ControllerSpec & controller)
+    {
+      auto interface_names = get_command_interfaces_names(controller.c, resource_manager_);
+      ros2_control::add_items(
+        interface_names, get_state_interfaces_names(controller.c, resource_manager_));
+      return std::any_of(
+        interface_names.begin(), interface_names.end(),
+        [&rt_controller_list](const auto & interface_name)
+        {
+          ControllersListIterator used_ctrl_it;
+          return is_interface_a_chained_interface(
+                   interface_name, rt_controller_list, used_ctrl_it) &&
+                 !is_controller_active(used_ctrl_it->c);
+        });
+    };
+    // stop the controllers that use the exported interfaces of a controller that is not active
+    bool controllers_stopped = true;
+    while (controllers_stopped)
+    {
+      controllers_stopped = false;
+      for (const auto & controller : rt_controller_list)
+      {
+        if (is_controller_active(controller.c) && uses_inactive_controller(controller))
+        {
+          RCLCPP_ERROR(
+            get_logger(),
+            "Stopping controller '%s' because a controller it uses could not be activated.",
+            controller.info.name.c_str());
+          deactivate_controllers(rt_controller_list, {controller.info.name});
+          ros2_control::add_items(
+            failed_controllers_command_interfaces,
+            get_command_interfaces_names(controller.c, resource_manager_));
+          controllers_stopped |= !is_controller_active(controller.c);
+        }
+      }
+    }
+    // Now prepare and perform the stop interface switching as this is needed for exclusive
+    // interfaces
+    if (
+      !failed_controllers_command_interfaces.empty() &&
+      (!resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
+       !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+    {
+      RCLCPP_ERROR(
+        get_logger(),
+        "Error switching back the interfaces in the hardware when the controller activation "
+        "failed.");
+    }
+    // the controllers whose references are not used now can not stay in chained mode
+    std::vector<std::string> unused_chained_controllers;
+    for (const auto & controller : rt_controller_list)
+    {
+      const bool is_used = std::any_of(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        [&](const auto & other)
+        {
+          if (!is_controller_active(other.c))
+          {
+            return false;
+          }
+          const auto names = get_command_interfaces_names(other.c, resource_manager_);
+          return std::any_of(
+            names.begin(), names.end(), [&controller](const auto & name)
+            { return name.rfind(controller.info.name + "/", 0) == 0; });
+        });
+      if (is_controller_active(controller.c) && controller.c->is_in_chained_mode() && !is_used)
+      {
+        unused_chained_controllers.push_back(controller.info.name);
+      }
+    }
+    if (!unused_chained_controllers.empty())
+    {
+      deactivate_controllers(rt_controller_list, unused_chained_controllers);
+      activate_controllers(
+        rt_controller_list, unused_chained_controllers,
+        controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT);
+    }
   }
 }
 
-- 
2.43.0


From 5c66ab3292daba9a2915a627d80a5710b46342e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:43 +0000
Subject: [PATCH 13/41] fix: let the hardware stop interfaces that are not
 available any more

A mode switch with a stop interface of a controller or hardware that has become unavailable was
rejected as a whole, so the hardware was not told to stop any of them.
---
 hardware_interface/src/resource_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..7babf46 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2064,7 +2064,7 @@ bool ResourceManager::prepare_command_mode_switch(
     }
     return all_available;
   };
-  if (!(check_available(start_interfaces) && check_available(stop_interfaces)))
+  if (!check_available(start_interfaces))
   {
     ss_not_available << "]" << std::endl;
     RCLCPP_ERROR(
-- 
2.43.0


From b675f1e7d14b77839b7bd154df70d7c28c34587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:43 +0000
Subject: [PATCH 14/41] fix: start fallback controllers as a chain and tell the
 hardware about it

Fallback controllers used by other fallback controllers were not in chained mode and their
missing references rejected the mode switch of the hardware, only a part of the chains making room
for them was stopped, and a failed fallback did not stop the interfaces it had started.
---
 controller_manager/src/controller_manager.cpp | 57 +++++++++++++++++--
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index cb96ef0..cf01ebd 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2685,6 +2685,7 @@ void ControllerManager::activate_controllers(
   const std::vector<ControllerSpec> & rt_controller_list,
   const std::vector<std::string> & controllers_to_activate, int strictness)
 {
+  std::vector<std::string> requested_command_interfaces;
   std::vector<std::string> failed_controllers_command_interfaces;
   bool is_successful = true;
   const auto make_exported_interfaces_unavailable =
@@ -2738,6 +2739,7 @@ void ControllerManager::activate_controllers(
     bool assignment_successful = true;
     const auto command_interface_names =
       get_command_interfaces_names(controller, resource_manager_);
+    ros2_control::add_items(requested_command_interfaces, command_interface_names);
     std::vector<hardware_interface::LoanedCommandInterface> command_loans;
     command_loans.reserve(command_interface_names.size());
     for (const auto & command_interface : command_interface_names)
@@ -2862,10 +2864,8 @@ void ControllerManager::activate_controllers(
     // deactivate all controllers that were activated in this switch
     deactivate_controllers(rt_controller_list, controllers_to_activate);
     if (
-      !resource_manager_->prepare_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request) ||
-      !resource_manager_->perform_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request))
+      !resource_manager_->prepare_command_mode_switch({}, requested_command_interfaces) ||
+      !resource_manager_->perform_command_mode_switch({}, requested_command_interfaces))
     {
       RCLCPP_ERROR(
         get_logger(),
@@ -3682,8 +3682,50 @@ controller_interface::return_type ControllerManager::update(
       rt_buffer_.get_concatenated_string(rt_buffer_.fallback_controllers_list).c_str());
     for (const std::string & controller : rt_buffer_.activate_controllers_using_interfaces_list)
     {
+      // the controllers of its chain can not run without it
+      const auto ctrl_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, controller));
       ros2_control::add_item(rt_buffer_.deactivate_controllers_list, controller);
+      ros2_control::add_items(
+        rt_buffer_.deactivate_controllers_list, ctrl_it->controllers_chain_group);
     };
+    // the controllers whose references the fallback controllers use have to be in chained mode
+    std::vector<ControllersListIterator> to_chained_mode_list;
+    for (size_t i = 0; i < rt_buffer_.fallback_controllers_list.size(); ++i)
+    {
+      const auto fallback_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(
+          controller_name_compare, std::placeholders::_1, rt_buffer_.fallback_controllers_list[i]));
+      if (fallback_it == rt_controller_list.end())
+      {
+        continue;
+      }
+      if (fallback_it->c->is_chainable())
+      {
+        // the other fallback controllers may use its exported interfaces
+        resource_manager_->make_controller_exported_state_interfaces_available(
+          fallback_it->info.name);
+        resource_manager_->make_controller_reference_interfaces_available(fallback_it->info.name);
+      }
+      for (const auto & cmd_itf_name :
+           get_command_interfaces_names(fallback_it->c, resource_manager_))
+      {
+        ControllersListIterator used_ctrl_it;
+        if (is_interface_a_chained_interface(cmd_itf_name, rt_controller_list, used_ctrl_it))
+        {
+          if (is_controller_active(used_ctrl_it->c) && !used_ctrl_it->c->is_in_chained_mode())
+          {
+            // it has to be restarted
+            ros2_control::add_item(
+              rt_buffer_.deactivate_controllers_list, used_ctrl_it->info.name);
+            ros2_control::add_item(rt_buffer_.fallback_controllers_list, used_ctrl_it->info.name);
+          }
+          to_chained_mode_list.push_back(used_ctrl_it);
+        }
+      }
+    }
 
     // Retrieve the interfaces to start and stop from the hardware end
     perform_hardware_command_mode_change(
@@ -3692,6 +3734,13 @@ controller_interface::return_type ControllerManager::update(
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     if (!rt_buffer_.fallback_controllers_list.empty())
     {
+      for (const auto & controller : to_chained_mode_list)
+      {
+        if (!is_controller_active(controller->c))
+        {
+          controller->c->set_chained_mode(true);
+        }
+      }
       activate_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
-- 
2.43.0


From 6ce8afc7dd405b721ff112dce5a87a584a6a5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 15/41] fix: make interfaces unavailable when hardware fails in
 a transition

---
 hardware_interface/src/resource_manager.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 7babf46..f02134f 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -32,6 +32,7 @@
 #include "hardware_interface/component_parser.hpp"
 #include "hardware_interface/hardware_component_info.hpp"
 #include "hardware_interface/helpers.hpp"
+#include "hardware_interface/lifecycle_helpers.hpp"
 #include "hardware_interface/sensor.hpp"
 #include "hardware_interface/sensor_interface.hpp"
 #include "hardware_interface/system.hpp"
@@ -467,7 +468,7 @@ public:
       handle_exception_ ? void() : throw;
     }
 
-    if (result)
+    if (lifecycleStateThatRequiresNoAction(hardware.get_lifecycle_id()))
     {
       remove_all_hardware_interfaces_from_available_list(hardware.get_name());
     }
@@ -503,9 +504,12 @@ public:
       handle_exception_ ? void() : throw;
     }
 
-    if (result)
+    if (lifecycleStateThatRequiresNoAction(hardware.get_lifecycle_id()))
     {
       remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
+    if (result)
+    {
       // TODO(destogl): change this - deimport all things if there is there are interfaces there
       // deimport_non_movement_command_interfaces(hardware);
       // deimport_state_interfaces(hardware);
@@ -542,6 +546,11 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    // an error during the activation leaves the hardware unconfigured or finalized
+    if (lifecycleStateThatRequiresNoAction(hardware.get_lifecycle_id()))
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
     return result;
   }
 
@@ -570,6 +579,11 @@ public:
       handle_exception_ ? void() : throw;
     }
 
+    // an error during the deactivation leaves the hardware unconfigured or finalized
+    if (lifecycleStateThatRequiresNoAction(hardware.get_lifecycle_id()))
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
     if (result)
     {
       // TODO(destogl): make all command interfaces unavailable that should be present only
-- 
2.43.0


From 811ca472d15d618f06f77d3078d56e29e5fa7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 16/41] fix: do not call on_error of finalized hardware again

---
 hardware_interface/src/hardware_component.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index ac579ff..9949eed 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -221,9 +221,8 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
 {
   std::unique_lock<std::recursive_mutex> lock(component_mutex_);
   impl_->enable_introspection(false);
-  if (
-    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
-    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
+  // unconfigured hardware has recovered already and finalized hardware can not be recovered
+  if (!lifecycleStateThatRequiresNoAction(impl_->get_lifecycle_id()))
   {
     impl_->pause_async_operations();
     switch (impl_->on_error(impl_->get_lifecycle_state()))
-- 
2.43.0


From abaef8ccae76a423cf54ffd09edf18203aa60a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 17/41] fix: propagate exceptions of hardware components to
 their group

---
 hardware_interface/src/resource_manager.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index f02134f..fdd2591 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2470,9 +2470,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2490,6 +2487,8 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
@@ -2572,9 +2571,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2592,6 +2588,8 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From 4f5c2e5bc5f52a783061bab0772ecc7ab610475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 18/41] fix: do not turn the deactivation of a hardware group
 into errors, nor touch unconfigured members

---
 hardware_interface/src/resource_manager.cpp | 48 ++++++++++++++++-----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index fdd2591..8421b9b 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -546,6 +546,16 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    if (result)
+    {
+      // the group is not deactivated any more
+      auto group_state = hw_group_state_.find(hardware.get_group_name());
+      if (
+        group_state != hw_group_state_.end() && group_state->second == return_type::DEACTIVATE)
+      {
+        group_state->second = return_type::OK;
+      }
+    }
     // an error during the activation leaves the hardware unconfigured or finalized
     if (lifecycleStateThatRequiresNoAction(hardware.get_lifecycle_id()))
     {
@@ -1361,9 +1371,13 @@ public:
   /**
    * Returns the return type of the hardware component group state, if the return type is other
    * than OK, then updates the return type of the group to the respective one
+   *
+   * \param[lifecycle_id] state of the component, after its read() or write().
+   * \param[is_read] true if the value is the one of a read(), false for a write().
    */
   return_type update_hardware_component_group_state(
-    const std::string & group_name, const return_type & value)
+    const std::string & group_name, const return_type & value, const uint8_t lifecycle_id,
+    const bool is_read)
   {
     // This is for the components that has no configured group
     if (group_name.empty())
@@ -1371,12 +1385,23 @@ public:
       return value;
     }
     // If it is anything other than OK, change the return type of the hardware group state
-    // to the respective return type
-    if (value != return_type::OK)
+    // to the respective return type, unless the group has failed already
+    auto & group_state = hw_group_state_.at(group_name);
+    if (value != return_type::OK && group_state != return_type::ERROR)
     {
-      hw_group_state_.at(group_name) = value;
+      group_state = value;
     }
-    return hw_group_state_.at(group_name);
+    // Only the components that are configured are concerned by the errors of their group, and only
+    // the active ones have to be deactivated with it
+    if (
+      value == return_type::OK &&
+      (lifecycleStateThatRequiresNoAction(lifecycle_id) ||
+       (group_state == return_type::DEACTIVATE &&
+        (is_read || lifecycle_id != lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE))))
+    {
+      return return_type::OK;
+    }
+    return group_state;
   }
 
   /// Gets the logger for the resource storage
@@ -2487,11 +2512,14 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      if (ret_val == return_type::DEACTIVATE)
+      {
+        RCLCPP_WARN(
+          get_logger(), "DEACTIVATE returned from read cycle is treated the same as ERROR.");
+        ret_val = return_type::ERROR;
+      }
       ret_val = resource_storage_->update_hardware_component_group_state(
-        component.get_group_name(), ret_val);
-      RCLCPP_WARN_EXPRESSION(
-        get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
-        "DEACTIVATE returned from read cycle is treated the same as ERROR.");
+        component.get_group_name(), ret_val, component.get_lifecycle_id(), true);
       if (ret_val != return_type::OK)
       {
         component.error();
@@ -2589,7 +2617,7 @@ HardwareReadWriteStatus ResourceManager::write(
         ret_val = return_type::ERROR;
       }
       ret_val = resource_storage_->update_hardware_component_group_state(
-        component.get_group_name(), ret_val);
+        component.get_group_name(), ret_val, component.get_lifecycle_id(), false);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From 7c839cc254f883e23e0ac633106ce89e444a4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 19/41] fix: report errors of hardware also when other hardware
 is deactivated in the same cycle

---
 hardware_interface/src/resource_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 8421b9b..87291e5 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2630,7 +2630,11 @@ HardwareReadWriteStatus ResourceManager::write(
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
         set_component_state(component_name, inactive_state);
-        read_write_status.result = ret_val;
+        // errors of other components take precedence
+        if (read_write_status.result != return_type::ERROR)
+        {
+          read_write_status.result = ret_val;
+        }
         if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
-- 
2.43.0


From 61103d7b33a4b77788317f77fb753471e9f202ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 20/41] fix: stop the chains of controllers whose hardware
 fails

---
 controller_manager/src/controller_manager.cpp | 63 ++++++++++++++-----
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index cf01ebd..aaa123a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -449,6 +449,39 @@ void get_controller_list_command_interfaces(
   }
 }
 
+/// Add the active ones of the given controllers, and of the controllers of the chains they belong to
+void add_active_controllers_with_chain(
+  const std::vector<std::string> & controllers_list,
+  const std::vector<controller_manager::ControllerSpec> & controllers_spec,
+  std::vector<std::string> & active_controllers_list)
+{
+  const auto find_active = [&controllers_spec](const std::string & controller_name)
+  {
+    const auto found_it = std::find_if(
+      controllers_spec.begin(), controllers_spec.end(),
+      std::bind(controller_name_compare, std::placeholders::_1, controller_name));
+    return found_it != controllers_spec.end() && is_controller_active(found_it->c)
+             ? found_it
+             : controllers_spec.end();
+  };
+  for (const auto & controller_name : controllers_list)
+  {
+    const auto controller_it = find_active(controller_name);
+    if (controller_it == controllers_spec.end())
+    {
+      continue;
+    }
+    ros2_control::add_item(active_controllers_list, controller_name);
+    for (const auto & chained_controller : controller_it->controllers_chain_group)
+    {
+      if (find_active(chained_controller) != controllers_spec.end())
+      {
+        ros2_control::add_item(active_controllers_list, chained_controller);
+      }
+    }
+  }
+}
+
 void get_full_chain_spec(
   const std::string & controller_name,
   const std::unordered_map<std::string, controller_manager::ControllerChainSpec> & chain_spec,
@@ -3409,12 +3442,14 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
   if (result != hardware_interface::return_type::OK)
   {
     rt_buffer_.deactivate_controllers_list.clear();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Determine controllers to stop
     for (const auto & hardware_name : failed_hardware_names)
     {
       auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      rt_buffer_.deactivate_controllers_list.insert(
-        rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
+      add_active_controllers_with_chain(
+        controllers, rt_controller_list, rt_buffer_.deactivate_controllers_list);
     }
     RCLCPP_ERROR(
       get_logger(),
@@ -3425,8 +3460,6 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       "Deactivating following controllers as their hardware components read cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3780,12 +3813,14 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   if (result == hardware_interface::return_type::ERROR)
   {
     rt_buffer_.deactivate_controllers_list.clear();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Determine controllers to stop
     for (const auto & hardware_name : failed_hardware_names)
     {
       auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      rt_buffer_.deactivate_controllers_list.insert(
-        rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
+      add_active_controllers_with_chain(
+        controllers, rt_controller_list, rt_buffer_.deactivate_controllers_list);
     }
     RCLCPP_ERROR(
       get_logger(),
@@ -3797,9 +3832,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating following controllers as their hardware components write cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
-
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3808,7 +3840,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
     rt_buffer_.deactivate_controllers_list.clear();
-    auto loaded_controllers = get_loaded_controllers();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
     for (const auto & hardware_name : failed_hardware_names)
     {
@@ -3816,10 +3849,10 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       for (const auto & controller : controllers)
       {
         auto controller_spec = std::find_if(
-          loaded_controllers.begin(), loaded_controllers.end(),
+          rt_controller_list.begin(), rt_controller_list.end(),
           [&](const controller_manager::ControllerSpec & spec)
           { return spec.c->get_name() == controller; });
-        if (controller_spec == loaded_controllers.end())
+        if (controller_spec == rt_controller_list.end())
         {
           RCLCPP_WARN(
             get_logger(),
@@ -3834,7 +3867,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
         // if this controller has command interfaces add it to the deactivate_controllers_list
         if (!command_interface_names.empty())
         {
-          rt_buffer_.deactivate_controllers_list.push_back(controller);
+          add_active_controllers_with_chain(
+            {controller}, rt_controller_list, rt_buffer_.deactivate_controllers_list);
         }
       }
     }
@@ -3843,9 +3877,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating controllers [%s] as their command interfaces are tied to DEACTIVATEing "
       "hardware components",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
-
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
-- 
2.43.0


From 56ab7b3db468fe466bec32f93e521fc1bd8cc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 21/41] fix: switch the modes of healthy hardware, and only of
 interfaces in use, when hardware or controllers fail

---
 controller_manager/src/controller_manager.cpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index aaa123a..f3cdd96 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4013,9 +4013,24 @@ void ControllerManager::perform_hardware_command_mode_change(
 {
   rt_buffer_.interfaces_to_start.clear();
   rt_buffer_.interfaces_to_stop.clear();
-  get_controller_list_command_interfaces(
-    deactivate_controllers_list, rt_controller_list, resource_manager_,
-    rt_buffer_.interfaces_to_stop);
+  // the interfaces of inactive controllers may be used by other controllers
+  for (const auto & controller : rt_controller_list)
+  {
+    if (
+      is_controller_active(controller.c) &&
+      ros2_control::has_item(deactivate_controllers_list, controller.info.name))
+    {
+      extract_command_interfaces_for_controller(
+        controller, resource_manager_, rt_buffer_.interfaces_to_stop);
+    }
+  }
+  // hardware that failed can not be switched, the others have to
+  rt_buffer_.interfaces_to_stop.erase(
+    std::remove_if(
+      rt_buffer_.interfaces_to_stop.begin(), rt_buffer_.interfaces_to_stop.end(),
+      [this](const std::string & interface)
+      { return !resource_manager_->command_interface_is_available(interface); }),
+    rt_buffer_.interfaces_to_stop.end());
   get_controller_list_command_interfaces(
     activate_controllers_list, rt_controller_list, resource_manager_,
     rt_buffer_.interfaces_to_start);
-- 
2.43.0


From 5d3001abd846c25585275191870ed2da2a198a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 22/41] fix: stop controllers when the hardware they currently
 use fails, also started as fallback

---
 controller_manager/src/controller_manager.cpp    | 16 ++++++++++++++++
 .../hardware_interface/resource_manager.hpp      |  8 ++++++++
 hardware_interface/src/resource_manager.cpp      | 10 ++++++++++
 3 files changed, 34 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f3cdd96..a1b9e08 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1669,6 +1669,8 @@ controller_interface::return_type ControllerManager::configure_controller(
   }
   // For cases, when the controller ends up in the unconfigured state from any other state
   cleanup_controller_exported_interfaces(*found_it);
+  // its interfaces may change
+  resource_manager_->uncache_controller_to_hardware(controller_name);
 
   try
   {
@@ -3774,6 +3776,20 @@ controller_interface::return_type ControllerManager::update(
           controller->c->set_chained_mode(true);
         }
       }
+      for (const auto & controller : rt_buffer_.fallback_controllers_list)
+      {
+        // to be stopped when its hardware fails
+        const auto ctrl_it = std::find_if(
+          rt_controller_list.begin(), rt_controller_list.end(),
+          std::bind(controller_name_compare, std::placeholders::_1, controller));
+        if (ctrl_it != rt_controller_list.end())
+        {
+          auto interface_names = get_command_interfaces_names(ctrl_it->c, resource_manager_);
+          ros2_control::add_items(
+            interface_names, get_state_interfaces_names(ctrl_it->c, resource_manager_));
+          resource_manager_->cache_controller_to_hardware(controller, interface_names);
+        }
+      }
       activate_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
diff --git a/hardware_interface/include/hardware_interface/resource_manager.hpp b/hardware_interface/include/hardware_interface/resource_manager.hpp
index beeab9c..5ef5667 100644
--- a/hardware_interface/include/hardware_interface/resource_manager.hpp
+++ b/hardware_interface/include/hardware_interface/resource_manager.hpp
@@ -306,6 +306,14 @@ public:
   void cache_controller_to_hardware(
     const std::string & controller_name, const std::vector<std::string> & interfaces);
 
+  /// Remove a controller from the cached mapping between hardware and controllers using it
+  /**
+   * To be called when the interfaces used by the controller may change.
+   *
+   * \param[in] controller_name name of the controller to remove.
+   */
+  void uncache_controller_to_hardware(const std::string & controller_name);
+
   /// Return cached controllers for a specific hardware.
   /**
    * Return list of cached controller names that use the hardware with name \p hardware_name.
diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 87291e5..67d50ba 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1898,6 +1898,16 @@ void ResourceManager::cache_controller_to_hardware(
   }
 }
 
+// CM API: Called in "callback/slow"-thread
+void ResourceManager::uncache_controller_to_hardware(const std::string & controller_name)
+{
+  for (auto & [hw_name, controllers] : resource_storage_->hardware_used_by_controllers_)
+  {
+    controllers.erase(
+      std::remove(controllers.begin(), controllers.end(), controller_name), controllers.end());
+  }
+}
+
 // CM API: Called in "update"-thread
 std::vector<std::string> ResourceManager::get_cached_controllers_to_hardware(
   const std::string & hardware_name)
-- 
2.43.0


From 0d1a3e519d178a11f5fc4bf597cc9b4a47954afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:56 +0000
Subject: [PATCH 23/41] fix: report hardware that could not be deactivated as
 failed

---
 hardware_interface/src/resource_manager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 67d50ba..4cdae31 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2639,13 +2639,19 @@ HardwareReadWriteStatus ResourceManager::write(
       {
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
-        set_component_state(component_name, inactive_state);
+        if (set_component_state(component_name, inactive_state) != return_type::OK)
+        {
+          // all controllers using it have to be stopped
+          ret_val = return_type::ERROR;
+        }
         // errors of other components take precedence
         if (read_write_status.result != return_type::ERROR)
         {
           read_write_status.result = ret_val;
         }
-        if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
+        if (
+          ret_val == return_type::ERROR ||
+          return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
         }
-- 
2.43.0


From 866611ead7e7dca655bf03b4481c3540adb7a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:55 +0000
Subject: [PATCH 24/41] fix: assign transmission reductions in the order of the
 handles, not alphabetically

---
 .../include/transmission_interface/accessor.hpp  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/accessor.hpp b/transmission_interface/include/transmission_interface/accessor.hpp
index a72b0f3..bfa1c93 100644
--- a/transmission_interface/include/transmission_interface/accessor.hpp
+++ b/transmission_interface/include/transmission_interface/accessor.hpp
@@ -16,7 +16,6 @@
 #define TRANSMISSION_INTERFACE__ACCESSOR_HPP_
 
 #include <algorithm>
-#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -44,11 +43,16 @@ std::string to_string(const std::vector<T> & list)
 template <class T>
 std::vector<std::string> get_names(const std::vector<T> & handles)
 {
-  std::set<std::string> names;
-  std::transform(
-    handles.cbegin(), handles.cend(), std::inserter(names, names.end()),
-    [](const auto & handle) { return handle.get_prefix_name(); });
-  return std::vector<std::string>(names.begin(), names.end());
+  // keep the order in which the names appear: reductions and offsets are assigned in that order
+  std::vector<std::string> names;
+  for (const auto & handle : handles)
+  {
+    if (std::find(names.cbegin(), names.cend(), handle.get_prefix_name()) == names.cend())
+    {
+      names.push_back(handle.get_prefix_name());
+    }
+  }
+  return names;
 }
 
 template <typename T>
-- 
2.43.0


From c8ae10fba2f7af050ddc418c6052b49c69dedc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:21 +0000
Subject: [PATCH 25/41] fix: unload finalized controllers

---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a1b9e08..79cbed5 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1483,8 +1483,11 @@ controller_interface::return_type ControllerManager::unload_controller(
   }
 
   // call cleanup transition, if it is inactive
-  if (cleanup_controller(controller_name) != controller_interface::return_type::OK)
+  if (
+    is_controller_inactive(*controller.c) &&
+    cleanup_controller(controller_name) != controller_interface::return_type::OK)
   {
+    to.clear();
     return controller_interface::return_type::ERROR;
   }
 
-- 
2.43.0


From eecfe880c7a221f8a0e939307015c9411c7d7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:21 +0000
Subject: [PATCH 26/41] fix: keep the exported interfaces of a controller that
 could not be cleaned up

---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 79cbed5..528c875 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1522,8 +1522,11 @@ controller_interface::return_type ControllerManager::cleanup_controller(
 {
   try
   {
-    cleanup_controller_exported_interfaces(controller);
     const auto new_state = controller.c->get_node()->cleanup();
+    if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE)
+    {
+      cleanup_controller_exported_interfaces(controller);
+    }
     if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
     {
       RCLCPP_ERROR(
-- 
2.43.0


From 8cefe11adaff6d35d9152371d9032f571f3ba203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 27/41] fix: report and use the interfaces a controller claims
 now, also after errors and for fallback controllers

---
 controller_manager/src/controller_manager.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 528c875..041c408 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3029,7 +3029,11 @@ void ControllerManager::list_controllers_srv_cb(
     controller_state.type = controllers[i].info.type;
     controller_state.is_async = controllers[i].c->is_async();
     controller_state.update_rate = static_cast<uint16_t>(controllers[i].c->get_update_rate());
-    controller_state.claimed_interfaces = controllers[i].info.claimed_interfaces;
+    if (is_controller_active(controllers[i].c))
+    {
+      controller_state.claimed_interfaces =
+        get_command_interfaces_names(controllers[i].c, resource_manager_);
+    }
     controller_state.state = controllers[i].c->get_lifecycle_state().label();
     controller_state.is_chainable = controllers[i].c->is_chainable();
     controller_state.is_chained = controllers[i].c->is_in_chained_mode();
@@ -4551,11 +4555,8 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
       return controller_interface::return_type::ERROR;
     }
-    const auto cmd_itf_cfg = controller_it->c->command_interface_configuration();
     const auto controller_cmd_interfaces =
-      (cmd_itf_cfg.type == controller_interface::interface_configuration_type::INDIVIDUAL)
-        ? cmd_itf_cfg.names
-        : controller_it->info.claimed_interfaces;
+      get_command_interfaces_names(controller_it->c, resource_manager_);
     for (const auto & cmd_itf : controller_cmd_interfaces)
     {
       future_available_cmd_interfaces.push_back(cmd_itf);
-- 
2.43.0


From 48134d540b30fdfe13e9ec158a49507c39cd0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 28/41] fix: list only the references of the connected
 controller in a chain connection

---
 controller_manager/src/controller_manager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 041c408..86a8791 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3012,7 +3012,8 @@ void ControllerManager::list_controllers_srv_cb(
     rt_controllers_wrapper_.controllers_lock_);
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
   // create helper containers to create chained controller connections
-  std::unordered_map<std::string, std::vector<std::string>> controller_chain_interface_map;
+  std::unordered_map<std::string, std::unordered_map<std::string, std::vector<std::string>>>
+    controller_chain_interface_map;
   std::unordered_map<std::string, std::set<std::string>> controller_chain_map;
   std::vector<size_t> chained_controller_indices;
   for (size_t i = 0; i < controllers.size(); ++i)
@@ -3055,7 +3056,7 @@ void ControllerManager::list_controllers_srv_cb(
         if (controller_chain_map.find(prefix) != controller_chain_map.end())
         {
           controller_chain_map[controller_state.name].insert(prefix);
-          controller_chain_interface_map[controller_state.name].push_back(interface_type);
+          controller_chain_interface_map[controller_state.name][prefix].push_back(interface_type);
         }
       }
       // check reference interfaces only if controller is inactive or active
@@ -3101,7 +3102,8 @@ void ControllerManager::list_controllers_srv_cb(
     {
       controller_manager_msgs::msg::ChainConnection connection;
       connection.name = chained_name;
-      connection.reference_interfaces = controller_chain_interface_map[controller_state.name];
+      connection.reference_interfaces =
+        controller_chain_interface_map[controller_state.name][chained_name];
       controller_state.chain_connections.push_back(connection);
     }
   }
-- 
2.43.0


From 337580ead07e4a5cfed6d25ea64e4b4b8f59d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:26 +0000
Subject: [PATCH 29/41] fix: use the update rate a controller is configured
 with, not an earlier one

---
 controller_interface/src/controller_interface_base.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..c25f40b 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -204,6 +204,11 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
+    // an update rate set by an earlier configuration does not count any more
+    if (params.controller_manager_update_rate != 0u)
+    {
+      params.update_rate = params.controller_manager_update_rate;
+    }
     if (params.update_rate != 0u && update_rate > params.update_rate)
     {
       RCLCPP_WARN(
-- 
2.43.0


From e1acc819ea29f94a20b1fb5214249e81f5e180ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:37 +0000
Subject: [PATCH 30/41] fix: shut down controllers that could not be
 deactivated at shutdown

---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 86a8791..b379a6b 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -669,7 +669,10 @@ bool ControllerManager::shutdown_controllers()
       controller.c->get_node()->deactivate();
       controller.c->release_interfaces();
     }
-    if (is_controller_inactive(*controller.c) || is_controller_unconfigured(*controller.c))
+    // also controllers that could not be deactivated, they can not run without their interfaces
+    if (
+      is_controller_active(*controller.c) || is_controller_inactive(*controller.c) ||
+      is_controller_unconfigured(*controller.c))
     {
       RCLCPP_INFO(
         get_logger(), "Shutting down controller '%s'", controller.c->get_node()->get_name());
-- 
2.43.0


From 2f6bf58c57d60e82bfd3b384f3f6632ff6493717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:25 +0000
Subject: [PATCH 31/41] fix: refuse controllers whose fallback controllers need
 interfaces of unconfigured controllers

---
 controller_manager/src/controller_manager.cpp | 120 +++++++++---------
 1 file changed, 57 insertions(+), 63 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b379a6b..5837127 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4381,48 +4381,45 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
           ControllersListIterator following_ctrl_it;
           if (is_interface_a_chained_interface(fb_cmd_itf, controllers, following_ctrl_it))
           {
-            // if following_ctrl_it is inactive and it is in the fallback list of the
-            // controller_it and then check it it's exported reference interface names list if
-            // it's available
-            if (is_controller_inactive(following_ctrl_it->c))
+            // the interface is not available yet, so it has to be exported by an inactive controller
+            // that is in the fallback list of the controller_it too
+            if (
+              is_controller_inactive(following_ctrl_it->c) &&
+              std::find(
+                controller_it->info.fallback_controllers_names.begin(),
+                controller_it->info.fallback_controllers_names.end(),
+                following_ctrl_it->info.name) !=
+              controller_it->info.fallback_controllers_names.end())
             {
+              const auto exported_ref_itfs =
+                resource_manager_->get_controller_reference_interface_names(
+                  following_ctrl_it->info.name);
               if (
-                std::find(
-                  controller_it->info.fallback_controllers_names.begin(),
-                  controller_it->info.fallback_controllers_names.end(),
-                  following_ctrl_it->info.name) !=
-                controller_it->info.fallback_controllers_names.end())
-              {
-                const auto exported_ref_itfs =
-                  resource_manager_->get_controller_reference_interface_names(
-                    following_ctrl_it->info.name);
-                if (
-                  std::find(exported_ref_itfs.begin(), exported_ref_itfs.end(), fb_cmd_itf) ==
-                  exported_ref_itfs.end())
-                {
-                  message = fmt::format(
-                    FMT_COMPILE(
-                      "Controller with name '{}' cannot be activated, as the command interface : "
-                      "'{}' required by its fallback controller : '{}' is not exported by the "
-                      "controller : '{}' in the current fallback list!"),
-                    controller_it->info.name, fb_cmd_itf, fb_ctrl, following_ctrl_it->info.name);
-                  RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-                  return controller_interface::return_type::ERROR;
-                }
-              }
-              else
+                std::find(exported_ref_itfs.begin(), exported_ref_itfs.end(), fb_cmd_itf) ==
+                exported_ref_itfs.end())
               {
                 message = fmt::format(
                   FMT_COMPILE(
                     "Controller with name '{}' cannot be activated, as the command interface : "
-                    "'{}' required by its fallback controller : '{}' is not available as the "
-                    "controller is not in active state!. May be consider adding this controller to "
-                    "the fallback list of the controller : '{}' or already have it activated."),
+                    "'{}' required by its fallback controller : '{}' is not exported by the "
+                    "controller : '{}' in the current fallback list!"),
                   controller_it->info.name, fb_cmd_itf, fb_ctrl, following_ctrl_it->info.name);
                 RCLCPP_ERROR(get_logger(), "%s", message.c_str());
                 return controller_interface::return_type::ERROR;
               }
             }
+            else
+            {
+              message = fmt::format(
+                FMT_COMPILE(
+                  "Controller with name '{}' cannot be activated, as the command interface : "
+                  "'{}' required by its fallback controller : '{}' is not available as the "
+                  "controller is not in active state!. May be consider adding this controller to "
+                  "the fallback list of the controller : '{}' or already have it activated."),
+                controller_it->info.name, fb_cmd_itf, fb_ctrl, following_ctrl_it->info.name);
+              RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+              return controller_interface::return_type::ERROR;
+            }
           }
           else
           {
@@ -4443,48 +4440,45 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
           ControllersListIterator following_ctrl_it;
           if (is_interface_a_chained_interface(fb_state_itf, controllers, following_ctrl_it))
           {
-            // if following_ctrl_it is inactive and it is in the fallback list of the
-            // controller_it and then check it it's exported reference interface names list if
-            // it's available
-            if (is_controller_inactive(following_ctrl_it->c))
+            // the interface is not available yet, so it has to be exported by an inactive controller
+            // that is in the fallback list of the controller_it too
+            if (
+              is_controller_inactive(following_ctrl_it->c) &&
+              std::find(
+                controller_it->info.fallback_controllers_names.begin(),
+                controller_it->info.fallback_controllers_names.end(),
+                following_ctrl_it->info.name) !=
+              controller_it->info.fallback_controllers_names.end())
             {
+              const auto exported_state_itfs =
+                resource_manager_->get_controller_exported_state_interface_names(
+                  following_ctrl_it->info.name);
               if (
-                std::find(
-                  controller_it->info.fallback_controllers_names.begin(),
-                  controller_it->info.fallback_controllers_names.end(),
-                  following_ctrl_it->info.name) !=
-                controller_it->info.fallback_controllers_names.end())
-              {
-                const auto exported_state_itfs =
-                  resource_manager_->get_controller_exported_state_interface_names(
-                    following_ctrl_it->info.name);
-                if (
-                  std::find(exported_state_itfs.begin(), exported_state_itfs.end(), fb_state_itf) ==
-                  exported_state_itfs.end())
-                {
-                  message = fmt::format(
-                    FMT_COMPILE(
-                      "Controller with name '{}' cannot be activated, as the state interface : "
-                      "'{}' required by its fallback controller : '{}' is not exported by the "
-                      "controller : '{}' in the current fallback list!"),
-                    controller_it->info.name, fb_state_itf, fb_ctrl, following_ctrl_it->info.name);
-                  RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-                  return controller_interface::return_type::ERROR;
-                }
-              }
-              else
+                std::find(exported_state_itfs.begin(), exported_state_itfs.end(), fb_state_itf) ==
+                exported_state_itfs.end())
               {
                 message = fmt::format(
                   FMT_COMPILE(
-                    "Controller with name '{}' cannot be activated, as the state interface : '{}' "
-                    "required by its fallback controller : '{}' is not available as the "
-                    "controller is not in active state!. May be consider adding this controller to "
-                    "the fallback list of the controller : '{}' or already have it activated."),
+                    "Controller with name '{}' cannot be activated, as the state interface : "
+                    "'{}' required by its fallback controller : '{}' is not exported by the "
+                    "controller : '{}' in the current fallback list!"),
                   controller_it->info.name, fb_state_itf, fb_ctrl, following_ctrl_it->info.name);
                 RCLCPP_ERROR(get_logger(), "%s", message.c_str());
                 return controller_interface::return_type::ERROR;
               }
             }
+            else
+            {
+              message = fmt::format(
+                FMT_COMPILE(
+                  "Controller with name '{}' cannot be activated, as the state interface : '{}' "
+                  "required by its fallback controller : '{}' is not available as the "
+                  "controller is not in active state!. May be consider adding this controller to "
+                  "the fallback list of the controller : '{}' or already have it activated."),
+                controller_it->info.name, fb_state_itf, fb_ctrl, following_ctrl_it->info.name);
+              RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+              return controller_interface::return_type::ERROR;
+            }
           }
           else
           {
-- 
2.43.0


From 92614feae31bb683ac279923548238d0c1bf7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:55 +0000
Subject: [PATCH 32/41] fix: mock hardware took the interfaces of a joint for
 those of another whose name they contain

---
 hardware_interface/src/mock_components/generic_system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 034c9bd..911b7bc 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -203,7 +203,7 @@ return_type GenericSystem::prepare_command_mode_switch(
     // check if interface is joint
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [key](const auto & joint) { return key.rfind(joint.name + "/", 0) == 0; });
 
     if (joint_it_found != info.joints.end())
     {
@@ -276,7 +276,7 @@ return_type GenericSystem::perform_command_mode_switch(
     const auto & info = get_hardware_info();
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [key](const auto & joint) { return key.rfind(joint.name + "/", 0) == 0; });
 
     if (joint_it_found != info.joints.end())
     {
-- 
2.43.0


From a1a1720b2d9505cc88cf0c6fe507b0fc874b9f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:02 +0000
Subject: [PATCH 33/41] fix: limits of a rejected robot description stayed in
 force for the next one

---
 hardware_interface/src/resource_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 4cdae31..50a8c59 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1366,6 +1366,14 @@ public:
     available_command_interfaces_.clear();
 
     claimed_command_interface_map_.clear();
+
+    hw_group_state_.clear();
+    hardware_used_by_controllers_.clear();
+
+    limiters_data_.clear();
+    joint_limiters_interface_.clear();
+    hard_joint_limits_.clear();
+    soft_joint_limits_.clear();
   }
 
   /**
-- 
2.43.0


From 8c1467db56ec8fdae338d8b5f8d4aef05667af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:02 +0000
Subject: [PATCH 34/41] fix: parameters of the resource manager were lost with
 a rejected robot description

---
 controller_manager/src/controller_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 5837127..ce3bfb1 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -828,8 +828,8 @@ void ControllerManager::robot_description_callback(const std_msgs::msg::String &
     // The RM failed to init AFTER we received the description - a critical error.
     // don't finalize controller manager, instead keep waiting for robot description - fallback
     // state
-    resource_manager_ =
-      std::make_unique<hardware_interface::ResourceManager>(trigger_clock_, get_logger());
+    resource_manager_.reset();
+    init_resource_manager("");
     return;
   }
   set_initial_hardware_components_state();
-- 
2.43.0


From 9ef30f32d7ebedc8c864d78d54b82a17e9a7b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:58 +0000
Subject: [PATCH 35/41] fix: a moved interface handle kept using the value of
 the handle it was moved from

---
 .../include/hardware_interface/handle.hpp            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..6163f65 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -609,6 +609,10 @@ private:
 
   void swap(Handle & first, Handle & second) noexcept
   {
+    if (&first == &second)
+    {
+      return;
+    }
     std::scoped_lock lock(first.handle_mutex_, second.handle_mutex_);
     std::swap(first.prefix_name_, second.prefix_name_);
     std::swap(first.interface_name_, second.interface_name_);
@@ -616,6 +620,14 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // the pointers to the own values have to follow them
+    for (Handle * handle : {&first, &second})
+    {
+      if (!std::holds_alternative<std::monostate>(handle->value_))
+      {
+        handle->value_ptr_ = std::get_if<double>(&handle->value_);
+      }
+    }
   }
 
 protected:
-- 
2.43.0


From 3ec18c5a99aac25daafce567a73c538d0a6f60f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:11 +0000
Subject: [PATCH 36/41] fix: limited joints with interfaces that are no doubles
 made the loop throw

---
 hardware_interface/src/resource_manager.cpp | 23 +++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 50a8c59..aeba70a 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -903,7 +903,19 @@ public:
         {
           auto itf_handle = interface_map.at(interface_name);
           std::shared_lock<std::shared_mutex> lock(itf_handle->get_mutex());
-          value = itf_handle->get_optional(lock).value();
+          // the limiters work with floating point values only
+          switch (itf_handle->get_data_type())
+          {
+            case HandleDataType::DOUBLE:
+              value = itf_handle->get_optional(lock).value();
+              break;
+            case HandleDataType::FLOAT32:
+              value = static_cast<double>(itf_handle->template get_optional<float>(lock).value());
+              break;
+            default:
+              value = std::nullopt;
+              break;
+          }
         }
       }
     };
@@ -928,7 +940,14 @@ public:
       {
         auto itf_handle = interface_map.at(interface_name);
         std::unique_lock<std::shared_mutex> lock(itf_handle->get_mutex());
-        std::ignore = itf_handle->set_value(lock, data.value());
+        if (itf_handle->get_data_type() == HandleDataType::FLOAT32)
+        {
+          std::ignore = itf_handle->set_value(lock, static_cast<float>(data.value()));
+        }
+        else
+        {
+          std::ignore = itf_handle->set_value(lock, data.value());
+        }
       }
     };
     // update the command data of the limiters
-- 
2.43.0


From e084d53f809de7f1adaad768dedcb60fcee94cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:57 +0000
Subject: [PATCH 37/41] fix: robot descriptions without root element or model
 crashed the parser

---
 hardware_interface/src/component_parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index 0dc752b..f8b085c 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -995,6 +995,10 @@ std::vector<HardwareInfo> parse_control_resources_from_urdf(const std::string &
   const tinyxml2::XMLElement * robot_it = doc.RootElement();
   const tinyxml2::XMLElement * ros2_control_it;
 
+  if (!robot_it)
+  {
+    throw std::runtime_error("no root element found in the URDF");
+  }
   if (std::string(kRobotTag) == robot_it->Name())
   {
     ros2_control_it = robot_it->FirstChildElement(kROS2ControlTag);
@@ -1003,6 +1007,11 @@ std::vector<HardwareInfo> parse_control_resources_from_urdf(const std::string &
   {
     // find model tag in sdf tag
     const tinyxml2::XMLElement * model_it = robot_it->FirstChildElement(kModelTag);
+    if (!model_it)
+    {
+      throw std::runtime_error(
+        fmt::format(FMT_COMPILE("no '{}' tag found in the SDF"), kModelTag));
+    }
     ros2_control_it = model_it->FirstChildElement(kROS2ControlTag);
   }
   else
-- 
2.43.0


From 0fec574a56ee4bf56e8528fe56a8a5b61caf8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:06 +0000
Subject: [PATCH 38/41] fix: semantic components kept interfaces of an earlier
 assignment

---
 .../semantic_component_command_interface.hpp                    | 2 ++
 .../semantic_components/semantic_component_interface.hpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/controller_interface/include/semantic_components/semantic_component_command_interface.hpp b/controller_interface/include/semantic_components/semantic_component_command_interface.hpp
index e210609..ad02332 100644
--- a/controller_interface/include/semantic_components/semantic_component_command_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_command_interface.hpp
@@ -47,6 +47,8 @@ public:
   bool assign_loaned_command_interfaces(
     std::vector<hardware_interface::LoanedCommandInterface> & command_interfaces)
   {
+    // forget interfaces of an earlier assignment, they might not exist anymore
+    command_interfaces_.clear();
     return controller_interface::get_ordered_interfaces(
       command_interfaces, interface_names_, "", command_interfaces_);
   }
diff --git a/controller_interface/include/semantic_components/semantic_component_interface.hpp b/controller_interface/include/semantic_components/semantic_component_interface.hpp
index c502a41..d6eeb28 100644
--- a/controller_interface/include/semantic_components/semantic_component_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_interface.hpp
@@ -52,6 +52,8 @@ public:
   bool assign_loaned_state_interfaces(
     std::vector<hardware_interface::LoanedStateInterface> & state_interfaces)
   {
+    // forget interfaces of an earlier assignment, they might not exist anymore
+    state_interfaces_.clear();
     return controller_interface::get_ordered_interfaces(
       state_interfaces, interface_names_, "", state_interfaces_);
   }
-- 
2.43.0


From 0e2b50ebf4396c15df2ec7c7e31f54fc0dec1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:22 +0000
Subject: [PATCH 39/41] fix: some changes of joint limit parameters were not
 applied

---
 .../joint_limits/joint_limiter_interface.hpp  |  4 ++-
 .../joint_limits/joint_limits_rosparam.hpp    | 26 +++++++++++--------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limiter_interface.hpp b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
index 0d1245e..b3320e6 100644
--- a/joint_limits/include/joint_limits/joint_limiter_interface.hpp
+++ b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
@@ -100,7 +100,9 @@ public:
         rcl_interfaces::msg::SetParametersResult set_parameters_result;
         set_parameters_result.successful = true;
 
-        std::vector<joint_limits::JointLimits> updated_joint_limits = joint_limits_;
+        // start from the latest limits, an earlier update might not be in use yet
+        std::vector<joint_limits::JointLimits> updated_joint_limits =
+          *(updated_limits_.readFromNonRT());
         bool changed = false;
 
         for (size_t i = 0; i < number_of_joints_; ++i)
diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 6009cb9..3f4d11b 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -452,37 +452,37 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".min_position")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_position")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_velocity")
       {
-        changed = updated_limits.max_velocity != parameter.get_value<double>();
+        changed |= updated_limits.max_velocity != parameter.get_value<double>();
         updated_limits.max_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_acceleration")
       {
-        changed = updated_limits.max_acceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_acceleration != parameter.get_value<double>();
         updated_limits.max_acceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_deceleration")
       {
-        changed = updated_limits.max_deceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_deceleration != parameter.get_value<double>();
         updated_limits.max_deceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_jerk")
       {
-        changed = updated_limits.max_jerk != parameter.get_value<double>();
+        changed |= updated_limits.max_jerk != parameter.get_value<double>();
         updated_limits.max_jerk = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_effort")
       {
-        changed = updated_limits.max_effort != parameter.get_value<double>();
+        changed |= updated_limits.max_effort != parameter.get_value<double>();
         updated_limits.max_effort = parameter.get_value<double>();
       }
     }
@@ -525,6 +525,10 @@ inline bool check_for_limits_update(
             changed = true;
           }
         }
+        else
+        {
+          changed = true;
+        }
       }
       else if (param_name == param_base_name + ".has_velocity_limits")
       {
@@ -818,22 +822,22 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".k_position")
       {
-        changed = updated_limits.k_position != parameter.get_value<double>();
+        changed |= updated_limits.k_position != parameter.get_value<double>();
         updated_limits.k_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".k_velocity")
       {
-        changed = updated_limits.k_velocity != parameter.get_value<double>();
+        changed |= updated_limits.k_velocity != parameter.get_value<double>();
         updated_limits.k_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_lower_limit")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_upper_limit")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
     }
-- 
2.43.0


From 148848ca0410979dbf331df41c5d279ae41fd048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:11 +0000
Subject: [PATCH 40/41] fix: joint limits enabled by parameters without values
 were used

---
 .../include/joint_limits/joint_limits_rosparam.hpp       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 3f4d11b..f462b5e 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -278,6 +278,9 @@ inline bool get_joint_limits(
     {
       limits.min_position = param_itf->get_parameter(param_base_name + ".min_position").as_double();
       limits.max_position = param_itf->get_parameter(param_base_name + ".max_position").as_double();
+      // declared parameters that are not set are NaN
+      limits.has_position_limits =
+        !std::isnan(limits.min_position) && !std::isnan(limits.max_position);
     }
     else
     {
@@ -301,6 +304,7 @@ inline bool get_joint_limits(
     if (limits.has_velocity_limits && param_itf->has_parameter(param_base_name + ".max_velocity"))
     {
       limits.max_velocity = param_itf->get_parameter(param_base_name + ".max_velocity").as_double();
+      limits.has_velocity_limits = !std::isnan(limits.max_velocity);
     }
     else
     {
@@ -319,6 +323,7 @@ inline bool get_joint_limits(
     {
       limits.max_acceleration =
         param_itf->get_parameter(param_base_name + ".max_acceleration").as_double();
+      limits.has_acceleration_limits = !std::isnan(limits.max_acceleration);
     }
     else
     {
@@ -337,6 +342,7 @@ inline bool get_joint_limits(
     {
       limits.max_deceleration =
         param_itf->get_parameter(param_base_name + ".max_deceleration").as_double();
+      limits.has_deceleration_limits = !std::isnan(limits.max_deceleration);
     }
     else
     {
@@ -352,6 +358,7 @@ inline bool get_joint_limits(
     if (limits.has_jerk_limits && param_itf->has_parameter(param_base_name + ".max_jerk"))
     {
       limits.max_jerk = param_itf->get_parameter(param_base_name + ".max_jerk").as_double();
+      limits.has_jerk_limits = !std::isnan(limits.max_jerk);
     }
     else
     {
@@ -366,8 +373,8 @@ inline bool get_joint_limits(
       param_itf->get_parameter(param_base_name + ".has_effort_limits").as_bool();
     if (limits.has_effort_limits && param_itf->has_parameter(param_base_name + ".max_effort"))
     {
-      limits.has_effort_limits = true;
       limits.max_effort = param_itf->get_parameter(param_base_name + ".max_effort").as_double();
+      limits.has_effort_limits = !std::isnan(limits.max_effort);
     }
     else
     {
-- 
2.43.0


From 89695bd6affe75e3a8977140585f9d17a77307bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:58 +0000
Subject: [PATCH 41/41] fix: large negative numbers were accepted as unsigned
 numbers

---
 .../include/hardware_interface/lexical_casts.hpp               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 9826f19..b7874a8 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -83,7 +83,8 @@ T stoui_generic(const std::string & s)
   {
     throw std::invalid_argument("Invalid characters in string");
   }
-  if (v > std::numeric_limits<T>::max())
+  // stoul wraps negative numbers around instead of refusing them
+  if (v > std::numeric_limits<T>::max() || (v != 0 && s.find('-') != std::string::npos))
   {
     throw std::out_of_range("value not in range of target type");
   }
-- 
2.43.0

