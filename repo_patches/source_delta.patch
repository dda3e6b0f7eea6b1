From 8d580379bc4af800746b4636699b7940e3f59f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:41 +0000
Subject: [PATCH 1/4] fix: never load or leave behind an incomplete
 authentication token

The token was written in place, so a crash or full disk in the middle of
saving, or another process reading at the same time, could leave or see an
empty or partial token, which was then handed out as if the server had
issued it. Write to a temporary file and rename it into place, and
authenticate again if the stored token is empty or can't be read.
---
 resim/auth/device_code_client.cc | 47 +++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 640eec4..d724aa4 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -8,10 +8,16 @@
 
 #include <cpr/cpr.h>
 #include <google/protobuf/util/json_util.h>
+#include <unistd.h>
 
 #include <chrono>
+#include <cstdlib>
 #include <filesystem>
 #include <fstream>
+#include <iostream>
+#include <sstream>
+#include <string>
+#include <system_error>
 #include <thread>
 #include <utility>
 
@@ -73,23 +79,44 @@ void DeviceCodeClient::refresh() {
 
 void DeviceCodeClient::save_token() {
   std::filesystem::create_directories(config_.token_path.parent_path());
+
+  // Write to a temporary file of our own and move it into place so that nobody
+  // (including us after a crash) ever finds a partially written token. Failing
+  // to save is not fatal: the token is still available in memory.
+  std::string temporary_path{config_.token_path.string() + ".XXXXXX"};
+  const int descriptor = mkstemp(temporary_path.data());
+  if (descriptor < 0) {
+    return;
+  }
+  close(descriptor);
+
   std::ofstream token_stream;
-  token_stream.open(config_.token_path);
+  token_stream.open(temporary_path);
   token_stream << token_;
   token_stream.close();
+
+  std::error_code error;
+  if (token_stream.good()) {
+    std::filesystem::rename(temporary_path, config_.token_path, error);
+  }
+  if (not token_stream.good() or error) {
+    std::filesystem::remove(temporary_path, error);
+  }
 }
 
 void DeviceCodeClient::load_token() {
-  const bool token_exists = std::filesystem::exists(config_.token_path);
-  if (not token_exists) {
-    fetch_token();
-    save_token();
-    return;
+  if (std::filesystem::exists(config_.token_path)) {
+    std::ostringstream token_ss;
+    std::ifstream token_is{config_.token_path};
+    token_ss << token_is.rdbuf();
+    // This is not good if the file is gone or empty, or can't be read in full.
+    if (token_ss.good()) {
+      token_ = token_ss.str();
+      return;
+    }
   }
-  std::ostringstream token_ss;
-  std::ifstream token_is{config_.token_path};
-  token_ss << token_is.rdbuf();
-  token_ = token_ss.str();
+  fetch_token();
+  save_token();
 }
 
 void DeviceCodeClient::fetch_token() {
-- 
2.43.0


From a212e2c8c1e2a45e6b5828281b6dbecb9dec8258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:25 +0000
Subject: [PATCH 2/4] fix: do not use the content of a response that was cut
 off

If the connection broke after the status line, a prefix of the session id
was taken as the session and every later update went to a session that
doesn't exist. Treat a transport error like any other failed request.
---
 resim/visualization/client/view_client.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resim/visualization/client/view_client.cc b/resim/visualization/client/view_client.cc
index 07008e1..0cecfb0 100644
--- a/resim/visualization/client/view_client.cc
+++ b/resim/visualization/client/view_client.cc
@@ -53,7 +53,9 @@ Status ViewClient::send_view_update(const ViewUpdate &update) {
           cpr::Bearer{auth_client_->get_jwt()});
     }
 
-    if (response.status_code != static_cast<int>(HttpResponse::CREATED)) {
+    // The response may have been cut off after its status was received.
+    if (response.status_code != static_cast<int>(HttpResponse::CREATED) or
+        response.error) {
       LOG(ERROR) << "Could not create session. HTTP Status: "
                  << response.status_code;
       LOG(ERROR) << response.text;
@@ -103,7 +105,8 @@ Status ViewClient::send_view_update(const ViewUpdate &update) {
         cpr::Body{serialized_output});
   }
 
-  if (response.status_code != static_cast<int>(HttpResponse::CREATED)) {
+  if (response.status_code != static_cast<int>(HttpResponse::CREATED) or
+      response.error) {
     LOG(ERROR) << "Could not send view update. HTTP Status code: "
                << response.status_code;
     LOG(ERROR) << response.text;
-- 
2.43.0


From 06ef0cf96628fb7e1614c1e45c5152eec95c74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:34 +0000
Subject: [PATCH 3/4] fix: deliver each view from the thread that made it

Two threads viewing at once shared the pending primitives: a thread could send
(or lose, when the request failed) the other thread's object, and the other
thread's view then returned as if it had been delivered.  Adding an object and
flushing it is now one critical section.
---
 resim/visualization/view.cc | 38 ++++++++++++++++++++-----------------
 resim/visualization/view.hh |  3 +++
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/resim/visualization/view.cc b/resim/visualization/view.cc
index 6da8b9c..7a6f806 100644
--- a/resim/visualization/view.cc
+++ b/resim/visualization/view.cc
@@ -72,29 +72,33 @@ template View &View::operator<< <FramedVector>(const FramedVector &subject);
 
 template <typename T>
 void View::view_object(ViewObject<T> view_object) {
-  {
-    // In a separate scope since flush() needs this lock
-    std::lock_guard<std::mutex> guard{primitives_mutex_};
-
-    // We simply push the primitivies in here without packing
-    // them. The whole ViewUpdate will be packed by the ViewClient.
-    // The user defined name is an std::optional so the existence
-    // of a value i.e. a custom name is not cared about here.
-    primitives_.emplace_back(ViewPrimitive{
-        .id = UUID::new_uuid(),
-        .payload = view_object.the_object,
-        .user_defined_name = view_object.user_defined_name,
-        .file_name = view_object.file_name,
-        .line_number = view_object.line_number,
-    });
-  }
+  // Hold the lock until the primitive has been sent so that it is neither sent
+  // nor lost by another thread's call.
+  std::lock_guard<std::mutex> guard{primitives_mutex_};
+
+  // We simply push the primitivies in here without packing
+  // them. The whole ViewUpdate will be packed by the ViewClient.
+  // The user defined name is an std::optional so the existence
+  // of a value i.e. a custom name is not cared about here.
+  primitives_.emplace_back(ViewPrimitive{
+      .id = UUID::new_uuid(),
+      .payload = view_object.the_object,
+      .user_defined_name = view_object.user_defined_name,
+      .file_name = view_object.file_name,
+      .line_number = view_object.line_number,
+  });
+
   // Currently, we pack each primitive into its own update and send eagerly to
   // the view server.
-  flush();
+  flush_locked();
 }
 
 void View::flush() {
   std::lock_guard<std::mutex> guard{primitives_mutex_};
+  flush_locked();
+}
+
+void View::flush_locked() {
   REASSERT(client_ != nullptr, "No client interface set!");
   Status send_status = client_->send_view_update(ViewUpdate{
       .primitives = std::move(primitives_),
diff --git a/resim/visualization/view.hh b/resim/visualization/view.hh
index 5542616..d06d838 100644
--- a/resim/visualization/view.hh
+++ b/resim/visualization/view.hh
@@ -135,6 +135,9 @@ class View {
   // Default constructor used by get_instance() above.
   View();
 
+  // Implementation of flush(). The primitives_mutex_ must be held.
+  void flush_locked();
+
   // Set the client pointer
   // @param[in] The new client.
   void set_client(std::unique_ptr<ViewClientInterface> &&client);
-- 
2.43.0


From 02211624a2702a818efac10be1f3adbea252b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:35 +0000
Subject: [PATCH 4/4] fix: a failed append leaves a curve or trajectory
 unchanged

---
 resim/actor/state/trajectory.cc | 12 +++++++-----
 resim/curves/d_curve.cc         | 18 ++++++++++++------
 resim/curves/t_curve.cc         | 10 ++++++++--
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..6a48b09 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -30,10 +30,10 @@ Trajectory::Trajectory(curves::TCurve<SE3> curve, time::Timestamp start_time)
       start_time_(start_time){};
 
 void Trajectory::append(const Control &point) {
-  if (curve_.control_pts().empty()) {
-    // The first point defines the trajectory start time.
-    start_time_ = point.at_time;
-  } else {
+  // The first point defines the trajectory start time.
+  time::Timestamp start_time{point.at_time};
+  if (not curve_.control_pts().empty()) {
+    start_time = start_time_;
     // The first point defines the trajectory reference and body frames.
     // All subsequent points must have matching frames. The TCurve checks for
     // reference frame consistency already so here we add an additional check
@@ -45,8 +45,10 @@ void Trajectory::append(const Control &point) {
     REASSERT(frame_condition, FRAME_ERR);
   }
   // Convert the point to a valid format for the TCurve object.
-  double time = time::as_seconds(point.at_time - start_time());
+  double time = time::as_seconds(point.at_time - start_time);
   curve_.append({time, point.state.ref_from_body_two_jet().left_two_jet()});
+  // Only once the point has been added.
+  start_time_ = start_time;
 }
 
 void Trajectory::append(std::initializer_list<Control> points) {
diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..173f4b7 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -57,12 +57,18 @@ void DCurve<Group>::append(Group ref_from_control) {
         {.arc_length = control_pts_.back().arc_length + segment_length,
          .ref_from_control = ref_from_control_ptr});
     const double dest_arc_length = control_pts_.back().arc_length;
-    segments_.push_back(
-        {.orig_arc_length = orig_arc_length,
-         .dest_arc_length = dest_arc_length,
-         .ref_from_orig = ref_from_orig,
-         .ref_from_dest = control_pts_.back().ref_from_control,
-         .orig_from_dest = std::move(orig_from_control)});
+    // If the segment can't be added, its control point must not stay behind.
+    try {
+      segments_.push_back(
+          {.orig_arc_length = orig_arc_length,
+           .dest_arc_length = dest_arc_length,
+           .ref_from_orig = ref_from_orig,
+           .ref_from_dest = control_pts_.back().ref_from_control,
+           .orig_from_dest = std::move(orig_from_control)});
+    } catch (...) {
+      control_pts_.pop_back();
+      throw;
+    }
   }
 }
 
diff --git a/resim/curves/t_curve.cc b/resim/curves/t_curve.cc
index 4e5a719..bcc0213 100644
--- a/resim/curves/t_curve.cc
+++ b/resim/curves/t_curve.cc
@@ -83,8 +83,14 @@ void TCurve<Group>::append(Control point) {
         {control_pts_.back().time,
          point.time,
          TCurveSegment<Group>(orig, dest)});
-    // Finally, add the control point.
-    control_pts_.push_back(std::move(point));
+    // Finally, add the control point. If that fails, the segment must not stay
+    // behind without it.
+    try {
+      control_pts_.push_back(std::move(point));
+    } catch (...) {
+      segments_.pop_back();
+      throw;
+    }
   }
 }
 
-- 
2.43.0

