From 3e6092cbbc3c3b787f9205b40071d8a649c10386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 001/145] fix: Stopwatch::pause measures with the selected
 clock, in seconds

---
 src/utils/stop-watch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 0157fce..b844466 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -154,7 +154,7 @@ void Stopwatch::stop(string perf_name) {
 void Stopwatch::pause(string perf_name) {
   if (!active) return;
 
-  long double clock_end = clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -167,6 +167,8 @@ void Stopwatch::pause(string perf_name) {
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
   perf_info.last_time += lapse;
   perf_info.total_time += lapse;
-- 
2.43.0


From a5b9a1abfb09eeca6eb779738844d8128d06575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 002/145] fix: Stopwatch keeps a measured minimum of zero

---
 src/utils/stop-watch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index b844466..b2d5dbe 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -144,7 +144,7 @@ void Stopwatch::stop(string perf_name) {
 
   // Update min/max time
   if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
     perf_info.min_time = lapse;
 
   // Update total time
-- 
2.43.0


From 53cf4084da66e3c096414b132a361380937eb764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 003/145] fix: Contiifstream delivers every completed line
 exactly once

---
 src/debug/contiifstream.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/debug/contiifstream.cpp b/src/debug/contiifstream.cpp
index 3774a84..59ba04d 100644
--- a/src/debug/contiifstream.cpp
+++ b/src/debug/contiifstream.cpp
@@ -21,24 +21,18 @@ bool Contiifstream::loop(void) {
   sotDEBUGIN(25);
   bool res = false;
 
-  std::fstream file(filename.c_str());
+  std::ifstream file(filename.c_str());
 
   file.seekg(cursor);
   file.sync();
 
-  while (1) {
-    file.get(buffer, BUFFER_SIZE);
-    if (file.gcount()) {
-      res = true;
-      std::string line(buffer);
-      if (!first) reader.push_back(line);
-      cursor = file.tellg();
-      cursor++;
-      file.get(*buffer);  // get the last char ( = '\n')
-      sotDEBUG(15) << "line: " << line << std::endl;
-    } else {
-      break;
-    }
+  // A line is read once its end is there, and left for later until then.
+  std::string line;
+  while (std::getline(file, line) && !file.eof()) {
+    res = true;
+    if (!first) reader.push_back(line);
+    cursor = file.tellg();
+    sotDEBUG(15) << "line: " << line << std::endl;
   }
 
   first = false;
-- 
2.43.0


From 9bb3cf22ad57b3990a61b3b17833d79b07d43168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 004/145] fix: CausalFilter::switch_filter restarts from the
 current sample, not the oldest

---
 src/filters/causal-filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 0ace0ad..38d4506 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -108,7 +108,9 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-  Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
+  // m_pt_numerator is the next column to write, the current sample is before it
+  Eigen::VectorXd current_x(m_input_buffer.col(
+      m_pt_numerator == 0 ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
   m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
-- 
2.43.0


From 6f226d52c3e523e96d3f6bdb1892ba365e1638af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 005/145] fix: CausalFilter handles denominators of one or two
 coefficients

---
 src/filters/causal-filter.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 38d4506..aa8e5a2 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -14,6 +14,7 @@
  * with sot-torque-control.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <sot/core/causal-filter.hh>
 
@@ -47,8 +48,10 @@ CausalFilter::CausalFilter(const double &timestep, const int &xSize,
       m_pt_numerator(0),
       m_pt_denominator(0),
       m_input_buffer(Eigen::MatrixXd::Zero(xSize, filter_numerator.size())),
-      m_output_buffer(
-          Eigen::MatrixXd::Zero(xSize, filter_denominator.size() - 1)) {
+      // the second derivative needs two outputs, whatever the filter order
+      m_output_buffer(Eigen::MatrixXd::Zero(
+          xSize,
+          std::max<Eigen::Index>(filter_denominator.size() - 1, 2))) {
   assert(timestep > 0.0 && "Timestep should be > 0");
   assert(m_filter_numerator.size() == m_filter_order_m);
   assert(m_filter_denominator.size() == m_filter_order_n);
@@ -59,7 +62,7 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
   // const dynamicgraph::Vector &base_x = m_xSIN(iter);
   if (m_first_sample) {
     for (int i = 0; i < m_filter_order_m; i++) m_input_buffer.col(i) = base_x;
-    for (int i = 0; i < m_filter_order_n - 1; i++)
+    for (int i = 0; i < m_output_buffer.cols(); i++)
       m_output_buffer.col(i) =
           base_x * m_filter_numerator.sum() / m_filter_denominator.sum();
     m_first_sample = false;
@@ -68,23 +71,22 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
   m_input_buffer.col(m_pt_numerator) = base_x;
 
   Eigen::VectorXd b(m_filter_order_m);
-  Eigen::VectorXd a(m_filter_order_n - 1);
   b.head(m_pt_numerator + 1) =
       m_filter_numerator.head(m_pt_numerator + 1).reverse();
   b.tail(m_filter_order_m - m_pt_numerator - 1) =
       m_filter_numerator.tail(m_filter_order_m - m_pt_numerator - 1).reverse();
 
-  a.head(m_pt_denominator + 1) =
-      m_filter_denominator.segment(1, m_pt_denominator + 1).reverse();
-  a.tail(m_filter_order_n - m_pt_denominator - 2) =
-      m_filter_denominator.tail(m_filter_order_n - m_pt_denominator - 2)
-          .reverse();
-  x_output_dx_ddx.head(m_x_size) =
-      (m_input_buffer * b - m_output_buffer * a) / m_filter_denominator[0];
+  const Eigen::VectorXd::Index nb_outputs = m_output_buffer.cols();
+  Eigen::VectorXd y(m_input_buffer * b);
+  for (Eigen::VectorXd::Index i = 1; i < m_filter_order_n; i++)
+    y -= m_filter_denominator[i] *
+         m_output_buffer.col((m_pt_denominator + nb_outputs + 1 - i) %
+                             nb_outputs);
+  x_output_dx_ddx.head(m_x_size) = y / m_filter_denominator[0];
 
   // Finite Difference
   Eigen::VectorXd::Index m_pt_denominator_prev =
-      (m_pt_denominator == 0) ? m_filter_order_n - 2 : m_pt_denominator - 1;
+      (m_pt_denominator == 0) ? nb_outputs - 1 : m_pt_denominator - 1;
   x_output_dx_ddx.segment(m_x_size, m_x_size) =
       (x_output_dx_ddx.head(m_x_size) - m_output_buffer.col(m_pt_denominator)) /
       m_dt;
@@ -96,7 +98,7 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
 
   m_pt_numerator =
       (m_pt_numerator + 1) < m_filter_order_m ? (m_pt_numerator + 1) : 0;
-  m_pt_denominator = (m_pt_denominator + 1) < m_filter_order_n - 1
+  m_pt_denominator = (m_pt_denominator + 1) < nb_outputs
                          ? (m_pt_denominator + 1)
                          : 0;
   m_output_buffer.col(m_pt_denominator) = x_output_dx_ddx.head(m_x_size);
@@ -113,11 +115,12 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
       m_pt_numerator == 0 ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
-  m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
+  m_output_buffer.resize(Eigen::NoChange,
+                         std::max<Eigen::Index>(filter_order_n - 1, 2));
 
   for (int i = 0; i < filter_order_m; i++) m_input_buffer.col(i) = current_x;
 
-  for (int i = 0; i < filter_order_n - 1; i++)
+  for (int i = 0; i < m_output_buffer.cols(); i++)
     m_output_buffer.col(i) =
         current_x * filter_numerator.sum() / filter_denominator.sum();
 
-- 
2.43.0


From 631fbbdf495ca63fad6e81b9476419244f278b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 006/145] fix: DebugTrace closes and reopens its file after a
 failed write

---
 src/debug/debug.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug/debug.cpp b/src/debug/debug.cpp
index c6e44bc..07d20a7 100644
--- a/src/debug/debug.cpp
+++ b/src/debug/debug.cpp
@@ -45,13 +45,13 @@ __sotDebug_init __sotDebug_initialisator;
 } /* namespace dynamicgraph */
 
 void DebugTrace::openFile(const char *filename) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.clear();
   debugfile.open(filename, std::ios::trunc & std::ios::out);
 }
 
 void DebugTrace::closeFile(const char *) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.setstate(std::ios::failbit);
 }
 
-- 
2.43.0


From 58e9e0c6f214d5ce384e5b32da791c8300c5c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 007/145] fix: Device::setRoot sets the root pose instead of
 writing out of bounds

---
 src/tools/device.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index d07de74..8a0a7c8 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -297,9 +297,10 @@ void Device::setRoot(const Matrix &root) {
 
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
-  Vector q = state_;
-  q = worldMwaist.translation();  // abusive ... but working.
-  for (unsigned int i = 0; i < 3; ++i) q(i + 3) = r(i);
+  state_.head<3>() = worldMwaist.translation();
+  state_.segment<3>(3) = r;
+  stateSOUT.setConstant(state_);
+  motorcontrolSOUT.setConstant(state_);
 }
 
 void Device::setSecondOrderIntegration() {
-- 
2.43.0


From c24723fba49d66fbc6961d035bb1b86260eedbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:30 +0000
Subject: [PATCH 008/145] fix: Device does not read bounds that were never set

---
 src/tools/device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 8a0a7c8..b9b23f6 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -491,8 +491,11 @@ inline bool saturateBounds(double &val, const double &lower,
   return false;
 }
 
+// Bounds which were not set for the current size are not checked.
 #define CHECK_BOUNDS(val, lower, upper, what)                                \
-  for (int i = 0; i < val.size(); ++i) {                                     \
+  for (int i = 0; lower.size() == val.size() &&                              \
+                  upper.size() == val.size() && i < val.size();              \
+       ++i) {                                                                \
     double old = val(i);                                                     \
     if (saturateBounds(val(i), lower(i), upper(i))) {                        \
       std::ostringstream oss;                                                \
-- 
2.43.0


From 6aa528a317a27770d82e3fecd5731e2307e60808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 009/145] fix: Device refuses infinite controls as it refuses
 NaN

---
 src/tools/device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index b9b23f6..df598ec 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -508,8 +508,8 @@ inline bool saturateBounds(double &val, const double &lower,
 void Device::integrate(const double &dt) {
   const Vector &controlIN = controlSIN.accessCopy();
 
-  if (sanityCheck_ && controlIN.hasNaN()) {
-    dgRTLOG() << "Device::integrate: Control has NaN values: " << '\n'
+  if (sanityCheck_ && !controlIN.allFinite()) {
+    dgRTLOG() << "Device::integrate: Control has non finite values: " << '\n'
               << controlIN.transpose() << '\n';
     return;
   }
-- 
2.43.0


From 211ab35bd7ce819846d1489da1d3c90fe7639330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 010/145] fix: Device checks position bounds without
 integration, as documented

---
 src/tools/device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index df598ec..9974d5f 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -516,6 +516,10 @@ void Device::integrate(const double &dt) {
 
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
+    // Position bounds check
+    if (sanityCheck_) {
+      CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
+    }
     return;
   }
 
-- 
2.43.0


From eefa848a2b5308c7650fb4188589f78c1912aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 011/145] fix: PeriodicCall refuses a downsampling factor of
 zero

---
 src/tools/periodic-call.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/periodic-call.cpp b/src/tools/periodic-call.cpp
index 9790808..b396be9 100644
--- a/src/tools/periodic-call.cpp
+++ b/src/tools/periodic-call.cpp
@@ -20,6 +20,7 @@
 #include <sot/core/debug.hh>
 #include <sot/core/exception-tools.hh>
 #include <sot/core/periodic-call.hh>
+#include <stdexcept>
 
 using namespace std;
 using namespace dynamicgraph;
@@ -50,6 +51,8 @@ void PeriodicCall::addSignal(const std::string &sigpath) {
 void PeriodicCall::addDownsampledSignal(
     const std::string &name, SignalBase<int> &sig,
     const unsigned int &downsamplingFactor) {
+  if (downsamplingFactor == 0)
+    throw std::invalid_argument("The downsampling factor should be positive");
   signalMap[name] = SignalToCall(&sig, downsamplingFactor);
   return;
 }
-- 
2.43.0


From 06d3169b52ef8a4657ad29575677566d04b4fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 012/145] fix: Mailbox never loses, mixes or steps back to an
 older post

---
 include/sot/core/mailbox.hh  |  2 ++
 include/sot/core/mailbox.hxx | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/sot/core/mailbox.hh b/include/sot/core/mailbox.hh
index 7794300..cba1fab 100644
--- a/include/sot/core/mailbox.hh
+++ b/include/sot/core/mailbox.hh
@@ -65,6 +65,8 @@ class Mailbox : public dg::Entity {
   Object mainObject;
   struct timeval mainTimeStamp;
   bool update;
+  /// Last value taken from the box, only used by the reader.
+  sotTimestampedObject lastRead;
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<sotTimestampedObject, int> SOUT;
diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index 110a712..b3b8c77 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -23,9 +23,9 @@ Mailbox<Object>::Mailbox(const std::string &name)
     : Entity(name),
       mainObjectMutex(),
       mainObject(),
-      update(false)
-
-      ,
+      mainTimeStamp(),
+      update(false),
+      lastRead(),
       SOUT(boost::bind(&Mailbox::get, this, _1, _2), sotNOSIGNAL,
            "Mailbox(" + name + ")::output(Object)::sout"),
       objSOUT(boost::bind(&Mailbox::getObject, this, _1, _2), SOUT,
@@ -33,7 +33,9 @@ Mailbox<Object>::Mailbox(const std::string &name)
       timeSOUT(boost::bind(&Mailbox::getTimestamp, this, _1, _2), SOUT,
                "Mailbox(" + name + ")::output(Object)::timestamp") {
   signalRegistration(SOUT << objSOUT << timeSOUT);
-  SOUT.setDependencyType(TimeDependency<int>::BOOL_DEPENDENT);
+  // The box is read once per control time: the object and its timestamp asked
+  // for at the same time come from the same post.
+  SOUT.setNeedUpdateFromAllChildren(true);
 }
 
 template <class Object>
@@ -63,13 +65,16 @@ typename Mailbox<Object>::sotTimestampedObject &Mailbox<Object>::get(
   boost::timed_mutex::scoped_try_lock lockMain(this->mainObjectMutex);
 
   if (lockMain.owns_lock()) {
-    res.timestamp.tv_sec = this->mainTimeStamp.tv_sec;
-    res.timestamp.tv_usec = this->mainTimeStamp.tv_usec;
+    lastRead.timestamp.tv_sec = this->mainTimeStamp.tv_sec;
+    lastRead.timestamp.tv_usec = this->mainTimeStamp.tv_usec;
 
     update = false;
-    res.obj = this->mainObject;
+    lastRead.obj = this->mainObject;
   }
 
+  // If the box is busy, keep the last value read: the buffer received in res
+  // holds an older one.
+  res = lastRead;
   return res;
 }
 
@@ -80,7 +85,6 @@ void Mailbox<Object>::post(const Object &value) {
   mainObject = value;
   gettimeofday(&this->mainTimeStamp, NULL);
   update = true;
-  SOUT.setReady();
 
   return;
 }
-- 
2.43.0


From 5ba9ce56efe2c0956776f547e885d44e85e69051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 013/145] fix: Sequencer without a stack does not use an
 uninitialised pointer

---
 src/tools/sequencer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 14de302..54aaef6 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -22,6 +22,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(Sequencer, "Sequencer");
 
 Sequencer::Sequencer(const std::string &name)
     : Entity(name),
+      sotPtr(NULL),
       timeInit(-1),
       playMode(false),
       outputStreamPtr(NULL),
-- 
2.43.0


From a1b8a51c874faef835f6788c5d2d9d2e29c5e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 014/145] fix: Sot stacks a task once and refuses to pop an
 empty stack

---
 src/sot/sot.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 88ee365..7db6561 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -211,12 +211,17 @@ void Sot::push(TaskAbstract &task) {
   if (nbJoints == 0)
     throw std::logic_error("Set joint size of " + getClassName() + " \"" +
                            getName() + "\" first");
+  // A task has one priority (and one working memory): it is stacked once.
+  if (exist(task)) return;
   stack.push_back(&task);
   controlSOUT.addDependency(task.taskSOUT);
   controlSOUT.addDependency(task.jacobianSOUT);
   controlSOUT.setReady();
 }
 TaskAbstract &Sot::pop(void) {
+  if (stack.empty())
+    throw std::logic_error(getClassName() + " \"" + getName() +
+                           "\" contains no task to pop");
   TaskAbstract *res = stack.back();
   stack.pop_back();
   controlSOUT.removeDependency(res->taskSOUT);
-- 
2.43.0


From 6799e5b1de5a2f284024827dbf18de80cc35ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 015/145] fix: Sot reallocates the memory of a task whose size
 has grown

---
 src/sot/sot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 7db6561..9755b75 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -404,7 +404,9 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
 MemoryTaskSOT *getMemory(TaskAbstract &t, const Matrix::Index &tDim,
                          const Matrix::Index &nDof) {
   MemoryTaskSOT *mem = dynamic_cast<MemoryTaskSOT *>(t.memoryInternal);
-  if (NULL == mem) {
+  // The size of the task and the number of joints may change between cycles.
+  if (NULL == mem || mem->tmpTask.size() < tDim ||
+      mem->tmpVar.size() != nDof) {
     if (NULL != t.memoryInternal) delete t.memoryInternal;
     mem = new MemoryTaskSOT(tDim, nDof);
     t.memoryInternal = mem;
-- 
2.43.0


From 1656c0289f639665b6753983b0025e1b9583e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 016/145] fix: Sot solves the tasks below a discarded first
 task

---
 src/sot/sot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 9755b75..d95cf21 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -640,7 +640,8 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     sotPRINTCOUNTER(4);
     sotPRINTCOUNTER(5);
     sotPRINTCOUNTER(6);
-    if (last || kernel.cols() == 0) break;
+    // Without kernel (first tasks discarded), all the freedom is left.
+    if (last || (has_kernel && kernel.cols() == 0)) break;
   }
 
   sotCHRONO1;
-- 
2.43.0


From 590804a044be47f5ab6f4276b4878287b07a9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 017/145] fix: Sot posture acceleration needs a posture feature
 and a kernel

---
 src/sot/sot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index d95cf21..5ae2713 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -397,8 +397,9 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
   FeaturePosture *posture =
       dynamic_cast<FeaturePosture *>(task->getFeatureList().front());
 
+  if (posture == NULL) return false;
   assert(posture->dimensionSOUT(iterTime) <= nDof - 6);
-  return posture != NULL && posture->dimensionSOUT(iterTime) == nDof - 6;
+  return posture->dimensionSOUT(iterTime) == nDof - 6;
 }
 
 MemoryTaskSOT *getMemory(TaskAbstract &t, const Matrix::Index &tDim,
@@ -536,6 +537,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
 
     bool last = (iterTask + 1 == stack.size());
     bool fullPostureTask = (last && enablePostureTaskAcceleration &&
+                            has_kernel &&
                             isFullPostureTask(task, nbJoints, iterTime));
 
     sotDEBUG(15) << "Task: e_" << taskA.getName() << std::endl;
-- 
2.43.0


From 4e9f078231e70926728d49eb33ffffa5b3c692d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 018/145] fix: Task keeps the error of the first features when
 the vector grows

---
 src/task/task.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 7bf4f65..cdf0f5a 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -191,8 +191,7 @@ dynamicgraph::Vector &Task::computeError(dynamicgraph::Vector &error,
       while (cursorError + dim > dimError)  // DEBUG It was >=
       {
         dimError *= 2;
-        error.resize(dimError);
-        error.setZero();
+        error.conservativeResize(dimError);
       }
 
       for (int k = 0; k < dim; ++k) {
-- 
2.43.0


From 76b54696a29881461749cfafd7490f6fe5274ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 019/145] fix: Task follows the number of columns of its
 features

---
 src/task/task.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index cdf0f5a..3d2a31e 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -257,11 +257,12 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
   try {
     dynamicgraph::Matrix::Index dimJ = J.rows();
-    dynamicgraph::Matrix::Index nbc = J.cols();
-    if (0 == dimJ) {
-      dimJ = 1;
-      J.resize(dimJ, nbc);
-    }
+    // The number of columns is given by the first feature, not by a previous
+    // computation.
+    dynamicgraph::Matrix::Index nbc =
+        featureList.front()->jacobianSOUT(time).cols();
+    if (0 == dimJ) dimJ = 1;
+    J.resize(dimJ, nbc);
 
     dynamicgraph::Matrix::Index cursorJ = 0;
     // const Flags& selection = controlSelectionSIN(time);
@@ -277,10 +278,7 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
       const dynamicgraph::Matrix::Index nbr = partialJacobian.rows();
       sotDEBUG(25) << "Jp =" << endl << partialJacobian << endl;
 
-      if (0 == nbc) {
-        nbc = partialJacobian.cols();
-        J.resize(nbc, dimJ);
-      } else if (partialJacobian.cols() != nbc)
+      if (partialJacobian.cols() != nbc)
         throw ExceptionTask(
             ExceptionTask::NON_ADEQUATE_FEATURES,
             "Features from the list don't have compatible-size jacobians.");
-- 
2.43.0


From b5f1dd34c8c731dd2a1102173d7aa777e534e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 020/145] fix: Task outputs follow the list of features at the
 next cycle

---
 include/sot/core/task.hh |  2 ++
 src/task/task.cpp        | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/sot/core/task.hh b/include/sot/core/task.hh
index 8fd4772..6147e52 100644
--- a/include/sot/core/task.hh
+++ b/include/sot/core/task.hh
@@ -77,6 +77,8 @@ class SOTTASK_EXPORT Task : public TaskAbstract {
   FeatureList_t featureList;
   bool withDerivative;
 
+  void featureListChanged(void);
+
   DYNAMIC_GRAPH_ENTITY_DECL();
 
  public:
diff --git a/src/task/task.cpp b/src/task/task.cpp
index 3d2a31e..9d76b02 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -110,6 +110,15 @@ void Task::addFeature(FeatureAbstract &s) {
   jacobianSOUT.addDependency(s.jacobianSOUT);
   errorSOUT.addDependency(s.errorSOUT);
   errorTimeDerivativeSOUT.addDependency(s.getErrorDot());
+  featureListChanged();
+}
+
+/* The outputs have to be computed again even if no feature has changed. */
+void Task::featureListChanged(void) {
+  errorSOUT.setReady();
+  errorTimeDerivativeSOUT.setReady();
+  jacobianSOUT.setReady();
+  taskSOUT.setReady();
 }
 
 void Task::addFeatureFromName(const std::string &featureName) {
@@ -128,6 +137,7 @@ void Task::clearFeatureList(void) {
   }
 
   featureList.clear();
+  featureListChanged();
 }
 
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
-- 
2.43.0


From 9bb44c07c186bc46ab022c7d9b9b5dbc843011ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 021/145] fix: Task output follows withDerivative at the next
 cycle

---
 src/task/task.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 9d76b02..39d517f 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -83,7 +83,7 @@ void Task::initCommands(void) {
              makeCommandVoid1(*this, &Task::addFeatureFromName, docstring));
 
   addCommand("setWithDerivative",
-             makeDirectSetter(*this, &withDerivative,
+             makeCommandVoid1(*this, &Task::setWithDerivative,
                               docDirectSetter("withDerivative", "bool")));
   addCommand("getWithDerivative",
              makeDirectGetter(*this, &withDerivative,
@@ -148,7 +148,10 @@ void Task::addControlSelection(const Flags &act) {
 }
 void Task::clearControlSelection(void) { controlSelectionSIN = Flags(false); }
 
-void Task::setWithDerivative(const bool &s) { withDerivative = s; }
+void Task::setWithDerivative(const bool &s) {
+  withDerivative = s;
+  taskSOUT.setReady();
+}
 bool Task::getWithDerivative(void) { return withDerivative; }
 
 /* --- COMPUTATION ---------------------------------------------------------- */
-- 
2.43.0


From f75e186a01d6cf4afc3f955d23778673e6ca9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:55 +0000
Subject: [PATCH 022/145] fix: Sot handles a task without any row

---
 src/sot/sot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 5ae2713..4579844 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -548,6 +548,12 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     const Matrix::Index dim = taskA.taskSOUT.accessCopy().size();
     sotCOUNTER(0, 1);  // Direct Dynamic
 
+    // A task without any row asks for nothing.
+    if (dim == 0) {
+      iterTask++;
+      continue;
+    }
+
     /* Init memory. */
     MemoryTaskSOT *mem = getMemory(taskA, dim, nbJoints);
     /***/ sotCOUNTER(1, 2);  // first allocs
-- 
2.43.0


From 8b9e80fbe6fdaa310eed234de1d071caf1f359fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 023/145] fix: Sot applies the increment limit to an
 accelerated posture task

---
 src/sot/sot.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 4579844..d1165cf 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -573,8 +573,16 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
       if (!controlIsZero) mem->err.noalias() -= control.tail(nbJoints - 6);
       mem->tmpVar.head(rankJ).noalias() =
           kernel.transpose().rightCols(nbJoints - 6) * mem->err;
-      control.noalias() += kernel * mem->tmpVar.head(rankJ);
-      controlIsZero = false;
+      mem->tmpControl.noalias() = kernel * mem->tmpVar.head(rankJ);
+      if (mem->tmpControl.squaredNorm() > maxControlIncrementSquaredNorm) {
+        DYNAMIC_GRAPH_ENTITY_ERROR(*this)
+            << iterTime << ": SOT " << getName() << " disabled task "
+            << taskA.getName() << " at level " << iterTask
+            << " because norm exceeded the limit.\n";
+      } else {
+        control += mem->tmpControl;
+        controlIsZero = false;
+      }
     } else {
       assert(taskA.jacobianSOUT.accessCopy().cols() == nbJoints);
 
-- 
2.43.0


From 0d2c913468d0c089e6dcdb442f968e8cc0099d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:37 +0000
Subject: [PATCH 024/145] fix: Sot settings take effect at the next cycle

---
 include/sot/core/sot.hh |  5 +++++
 src/sot/sot.cpp         | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/sot/core/sot.hh b/include/sot/core/sot.hh
index 349d652..8a3498e 100644
--- a/include/sot/core/sot.hh
+++ b/include/sot/core/sot.hh
@@ -151,6 +151,11 @@ class SOTSOT_CORE_EXPORT Sot : public Entity {
   virtual void defineNbDof(const unsigned int &nbDof);
   virtual const unsigned int &getNbDof() const { return nbJoints; }
 
+  /*! \brief Set the option to bypass SVD computation for the posture task. */
+  void setPostureTaskAcceleration(const bool &enable);
+  /*! \brief Set the maximum allowed squared norm of control increment. */
+  void setMaxControlIncrementSquaredNorm(const double &norm);
+
   /*! @} */
  public: /* --- CONTROL --- */
   /*! \name Methods to compute the control law following the
diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index d1165cf..8c7df51 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -104,8 +104,8 @@ Sot::Sot(const std::string &name)
                  *this, &Sot::getNbDof, docstring));
 
   addCommand("enablePostureTaskAcceleration",
-             dynamicgraph::command::makeDirectSetter(
-                 *this, &enablePostureTaskAcceleration,
+             dynamicgraph::command::makeCommandVoid1(
+                 *this, &Sot::setPostureTaskAcceleration,
                  dynamicgraph::command::docDirectSetter(
                      "option to bypass SVD computation for the posture task at "
                      "the last"
@@ -133,8 +133,8 @@ Sot::Sot(const std::string &name)
       "    \n";
 
   addCommand("setMaxControlIncrementSquaredNorm",
-             dynamicgraph::command::makeDirectSetter(
-                 *this, &maxControlIncrementSquaredNorm,
+             dynamicgraph::command::makeCommandVoid1(
+                 *this, &Sot::setMaxControlIncrementSquaredNorm,
                  docstring + "     Input:\n"
                              "       - a strictly positive double\n"
                              "    \n"));
@@ -321,6 +321,16 @@ void Sot::clear(void) {
   controlSOUT.setReady();
 }
 
+void Sot::setPostureTaskAcceleration(const bool &enable) {
+  enablePostureTaskAcceleration = enable;
+  controlSOUT.setReady();
+}
+
+void Sot::setMaxControlIncrementSquaredNorm(const double &norm) {
+  maxControlIncrementSquaredNorm = norm;
+  controlSOUT.setReady();
+}
+
 void Sot::defineNbDof(const unsigned int &nbDof) {
   nbJoints = nbDof;
   controlSOUT.setReady();
-- 
2.43.0


From 9a8aeba227e4284d72a0d157088ff4bb86729daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 025/145] fix: the calendar can be displayed with Python 3

---
 src/dynamic_graph/sot/core/utils/attime.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 3ac1548..c5b4eab 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -33,11 +33,14 @@ class Calendar:
 
     def __repr__(self):
         res = ""
-        for iter, funpairs in sorted(self.events.iteritems()):
-            res += str(iter) + ": \n"
+        # the periodic events come first
+        always = [(it, ev) for it, ev in self.events.items() if it is ALWAYS]
+        timed = [(it, ev) for it, ev in self.events.items() if it is not ALWAYS]
+        for iter, funpairs in always + sorted(timed):
+            res += ("always" if iter is ALWAYS else str(iter)) + ": \n"
             for funpair in funpairs:
-                if funpair[1] == "":
-                    res += funpair[0] + "\n"
+                if not funpair[1]:
+                    res += str(funpair[0]) + "\n"
                 else:
                     res += str(funpair[1]) + "\n"
         return res
-- 
2.43.0


From d7916635d56f57334e4add83941ede211897d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 026/145] fix: stopping a periodic event neither skips another
 one nor schedules it again

---
 src/dynamic_graph/sot/core/utils/attime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index c5b4eab..fa03660 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -54,6 +54,7 @@ class Calendar:
         # return
         if iter == STOP:
             self.events[ALWAYS].remove(pairfundoc)
+            return
 
         if iter not in self.events.keys():
             self.events[iter] = list()
@@ -85,8 +86,10 @@ class Calendar:
 
     def run(self, iter, *args):
         if ALWAYS in self.events:
-            for fun, doc in self.events[ALWAYS]:
-                fun(*args)
+            # the callbacks may add and stop periodic events
+            for pair in list(self.events[ALWAYS]):
+                if pair in self.events[ALWAYS]:
+                    pair[0](*args)
         if iter in self.events:
             self.callPing()
             for fun, doc in self.events[iter]:
-- 
2.43.0


From 39e54949f1e69c38943d57e9b976ad9984aa5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 027/145] fix: an event registered while another thread
 registers one for the same time is not lost

---
 src/dynamic_graph/sot/core/utils/attime.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index fa03660..5239cb1 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -56,9 +56,8 @@ class Calendar:
             self.events[ALWAYS].remove(pairfundoc)
             return
 
-        if iter not in self.events.keys():
-            self.events[iter] = list()
-        self.events[iter].append(pairfundoc)
+        # in one operation: events are registered from several threads
+        self.events.setdefault(iter, list()).append(pairfundoc)
 
     def registerEvents(self, iter, *funs):
         """
-- 
2.43.0


From ae29d2eab57a58eabfeb1e33ecd1174705617515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:21 +0000
Subject: [PATCH 028/145] fix: the calendar can be displayed while another
 thread registers events

---
 src/dynamic_graph/sot/core/utils/attime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 5239cb1..d78f42d 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -34,8 +34,9 @@ class Calendar:
     def __repr__(self):
         res = ""
         # the periodic events come first
-        always = [(it, ev) for it, ev in self.events.items() if it is ALWAYS]
-        timed = [(it, ev) for it, ev in self.events.items() if it is not ALWAYS]
+        events = list(self.events.items())
+        always = [(it, ev) for it, ev in events if it is ALWAYS]
+        timed = [(it, ev) for it, ev in events if it is not ALWAYS]
         for iter, funpairs in always + sorted(timed):
             res += ("always" if iter is ALWAYS else str(iter)) + ": \n"
             for funpair in funpairs:
-- 
2.43.0


From 081b30a66a716c8da363e13d8c1d9d5f927d5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 029/145] fix: the interruptible loop keeps a quit request and
 is not running once it has ended

---
 .../core/utils/thread_interruptible_loop.py   | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index 7b937c0..647d580 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -50,21 +50,32 @@ class ThreadInterruptibleLoop(threading.Thread):
         self.setPlay(True)
 
     def run(self):
-        self.isQuit = False
-        self.isRunning = True
-        while not self.isQuit:
-            if self.isPlay:
-                self.loop()
-                self.iter += 1
-                if self.isOnce:
-                    self.pause()
-            time.sleep(self.sleepTime)
-        self.isRunning = False
+        try:
+            while not self.isQuit:
+                if self.isPlay:
+                    self.loop()
+                    self.iter += 1
+                    if self.isOnce:
+                        self.pause()
+                time.sleep(self.sleepTime)
+        finally:
+            self.isRunning = False
         print("Thread loop will now end.")
 
     def start(self):
+        # set here, not by the new thread: a command that follows at once must
+        # neither start the thread again nor be undone when it begins to run
+        wasRunning = self.isRunning
+        if not wasRunning:
+            self.isQuit = False
+            self.isRunning = True
         self.setPlay(True)
-        threading.Thread.start(self)
+        try:
+            threading.Thread.start(self)
+        except RuntimeError:
+            if not wasRunning:
+                self.isRunning = False
+            raise
 
     def restart(self):
         self.join()
-- 
2.43.0


From 419eccc7aad3c0ede3dd018d2375c5b42a6d366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 030/145] fix: play and step requests of the interruptible loop
 are not lost

---
 .../core/utils/thread_interruptible_loop.py   | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index 647d580..8e4ec9f 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -29,6 +29,8 @@ class ThreadInterruptibleLoop(threading.Thread):
     def __init__(self):
         threading.Thread.__init__(self)
         self.daemon = True
+        # protects isOnce and isPlay together
+        self.lock = threading.Lock()
 
     def quit(self):
         self.isQuit = True
@@ -39,24 +41,32 @@ class ThreadInterruptibleLoop(threading.Thread):
     def play(self):
         if not self.isRunning:
             self.start()
-        self.isOnce = False
-        self.setPlay(True)
+        with self.lock:
+            self.isOnce = False
+            self.setPlay(True)
 
     def pause(self):
         self.setPlay(False)
 
     def once(self):
-        self.isOnce = True
-        self.setPlay(True)
+        with self.lock:
+            self.isOnce = True
+            self.setPlay(True)
+        if not self.isRunning:
+            self.start()
 
     def run(self):
         try:
             while not self.isQuit:
-                if self.isPlay:
-                    self.loop()
-                    self.iter += 1
+                # a step request is consumed before its pass: one made during
+                # the pass, as well as play, is not lost
+                with self.lock:
+                    isPlay = self.isPlay
                     if self.isOnce:
                         self.pause()
+                if isPlay:
+                    self.loop()
+                    self.iter += 1
                 time.sleep(self.sleepTime)
         finally:
             self.isRunning = False
-- 
2.43.0


From c9932f890e4b54eae37571bd6f573d70d340d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 031/145] fix: History restores the state of the asked time,
 and that time

---
 src/dynamic_graph/sot/core/utils/history.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index 2e6dcd8..38341bc 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -7,6 +7,7 @@ from numpy import matrix, pi
 
 class History:
     def __init__(self, dynEnt, freq=100, zmpSig=None):
+        self.time = list()
         self.q = list()
         self.qdot = list()
         self.zmp = list()
@@ -20,6 +21,7 @@ class History:
     def record(self):
         i = self.dynEnt.position.time
         if i % self.freq == 0:
+            self.time.append(i)
             self.q.append(self.dynEnt.position.value)
             self.qdot.append(self.dynEnt.velocity.value)
             if self.withZmp:
@@ -28,9 +30,13 @@ class History:
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
 
     def restore(self, t):
-        t = int(t / self.freq)
-        print("robot.set(", self.q[t], ")")
-        print("robot.setVelocity(", self.qdot[t], ")")
+        t = int(t // self.freq) * self.freq
+        if t not in self.time:
+            raise ValueError("no state was recorded at time " + str(t))
+        # the last one, when the time has been set back
+        i = len(self.time) - 1 - self.time[::-1].index(t)
+        print("robot.set(", self.q[i], ")")
+        print("robot.setVelocity(", self.qdot[i], ")")
         print("T0 = ", t)
         print("robot.state.time = T0")
         print("[ t.feature.position.recompute(T0) for t in refreshTaskList]")
-- 
2.43.0


From a9c5630f86489e87925ea4465860934ec4952a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 032/145] fix: History dumps robots with less than 30 joints

---
 src/dynamic_graph/sot/core/utils/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index 38341bc..b98c2bf 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -75,8 +75,8 @@ class History:
                 + "\n"
             )
             filePos.write(str(sampleT * nT) + " ")
-            for j in range(6, 36):
-                filePos.write(str(q[j]) + " ")
+            for x in q[6:36]:
+                filePos.write(str(x) + " ")
             filePos.write(10 * " 0" + "\n")
         if self.withZmp:
             fileZMP = open(baseName + ".zmp", "w")
-- 
2.43.0


From a896519c688e803c5e69c5e1cdeaf72c5474741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 033/145] fix: History keeps positions and velocities aligned
 when a signal fails

---
 src/dynamic_graph/sot/core/utils/history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index b98c2bf..c9f3c00 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -21,13 +21,15 @@ class History:
     def record(self):
         i = self.dynEnt.position.time
         if i % self.freq == 0:
-            self.time.append(i)
-            self.q.append(self.dynEnt.position.value)
-            self.qdot.append(self.dynEnt.velocity.value)
+            # a signal may fail: nothing is recorded before all are read
+            q, qdot = self.dynEnt.position.value, self.dynEnt.velocity.value
             if self.withZmp:
                 waMwo = matrix(self.dynEnt.waist.value).I
                 wo_z = matrix(self.zmpSig.value + (1,)).T
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
+            self.time.append(i)
+            self.q.append(q)
+            self.qdot.append(qdot)
 
     def restore(self, t):
         t = int(t // self.freq) * self.freq
-- 
2.43.0


From d8157b75862bd2d457efc264c73c3f49e33ff248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 034/145] fix: a dump of History reports disk errors and leaves
 complete files

---
 src/dynamic_graph/sot/core/utils/history.py | 95 +++++++++++----------
 1 file changed, 48 insertions(+), 47 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index c9f3c00..a9dad49 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -45,58 +45,59 @@ class History:
         print("attime.fastForward(T0)")
 
     def dumpToOpenHRP(self, baseName="dyninv", sample=1):
-        filePos = open(baseName + ".pos", "w")
-        fileRPY = open(baseName + ".hip", "w")
-        fileWaist = open(baseName + ".waist", "w")
+        # closing a file reports the errors of its last writes
         sampleT = 0.005
-        for nT, q in enumerate(self.q):
-            fileRPY.write(
-                str(sampleT * nT)
-                + " "
-                + str(q[3])
-                + " "
-                + str(q[4])
-                + " "
-                + str(q[5])
-                + "\n"
-            )
-            fileWaist.write(
-                str(sampleT * nT)
-                + " "
-                + str(q[0])
-                + " "
-                + str(q[1])
-                + " "
-                + str(q[2])
-                + " "
-                + str(q[3])
-                + " "
-                + str(q[4])
-                + " "
-                + str(q[5])
-                + "\n"
-            )
-            filePos.write(str(sampleT * nT) + " ")
-            for x in q[6:36]:
-                filePos.write(str(x) + " ")
-            filePos.write(10 * " 0" + "\n")
-        if self.withZmp:
-            fileZMP = open(baseName + ".zmp", "w")
-            for nT, z in enumerate(self.zmp):
-                fileZMP.write(
+        with open(baseName + ".pos", "w") as filePos, open(
+            baseName + ".hip", "w"
+        ) as fileRPY, open(baseName + ".waist", "w") as fileWaist:
+            for nT, q in enumerate(self.q):
+                fileRPY.write(
                     str(sampleT * nT)
                     + " "
-                    + str(z[0])
+                    + str(q[3])
                     + " "
-                    + str(z[1])
+                    + str(q[4])
                     + " "
-                    + str(z[2])
+                    + str(q[5])
                     + "\n"
                 )
+                fileWaist.write(
+                    str(sampleT * nT)
+                    + " "
+                    + str(q[0])
+                    + " "
+                    + str(q[1])
+                    + " "
+                    + str(q[2])
+                    + " "
+                    + str(q[3])
+                    + " "
+                    + str(q[4])
+                    + " "
+                    + str(q[5])
+                    + "\n"
+                )
+                filePos.write(str(sampleT * nT) + " ")
+                for x in q[6:36]:
+                    filePos.write(str(x) + " ")
+                filePos.write(10 * " 0" + "\n")
+        if self.withZmp:
+            with open(baseName + ".zmp", "w") as fileZMP:
+                for nT, z in enumerate(self.zmp):
+                    fileZMP.write(
+                        str(sampleT * nT)
+                        + " "
+                        + str(z[0])
+                        + " "
+                        + str(z[1])
+                        + " "
+                        + str(z[2])
+                        + "\n"
+                    )
 
-        filePos0 = open(baseName + "_pos0.py", "w")
-        filePos0.write("dyninv_posinit = '")
-        q0 = self.q[0]
-        for x in q0[6:36]:
-            filePos0.write(str(x * 180.0 / pi) + " ")
-        filePos0.write("   0 0 0 0 0 0 0 0 0 0  '")
+        with open(baseName + "_pos0.py", "w") as filePos0:
+            filePos0.write("dyninv_posinit = '")
+            q0 = self.q[0]
+            for x in q0[6:36]:
+                filePos0.write(str(x * 180.0 / pi) + " ")
+            filePos0.write("   0 0 0 0 0 0 0 0 0 0  '")
-- 
2.43.0


From 71fc71d69beed984374c5d38970dd230ae5a28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 035/145] fix: the time stamp of a trajectory message is read

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 3036a5d..45512ee 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -104,8 +104,10 @@ void RulesJointTrajectory::parse_header(std::string &trajectory,
   if (search_exp_sub_string(trajectory, what, header_re, sub_text1)) {
     is.str(what[1]);
     is >> TrajectoryToFill_.header_.seq_;
+    is.clear();
     is.str(what[2]);
     is >> TrajectoryToFill_.header_.stamp_.secs_;
+    is.clear();
     is.str(what[3]);
     is >> TrajectoryToFill_.header_.stamp_.nsecs_;
     TrajectoryToFill_.header_.frame_id_ = what[4];
-- 
2.43.0


From 464bdddf853bba376785c652f6d2cbd210780397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 036/145] fix: parsing a cut trajectory message ends, and
 invents no point

---
 include/sot/core/trajectory.hh |  6 ++++--
 src/tools/trajectory.cpp       | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/sot/core/trajectory.hh b/include/sot/core/trajectory.hh
index f1edeea..b899df9 100644
--- a/include/sot/core/trajectory.hh
+++ b/include/sot/core/trajectory.hh
@@ -62,11 +62,13 @@ class RulesJointTrajectory {
   /// unsigned int seq.
   /// unsigned int sec, unsigned int nsec.
   /// string format_id
-  void parse_header(std::string &text, std::string &sub_text1);
+  /// Return false when there is no header.
+  bool parse_header(std::string &text, std::string &sub_text1);
 
   /// \brief Understand joint_names.
   /// Extract a list of strings.
-  void parse_joint_names(std::string &text, std::string &sub_text1,
+  /// Return false when the list does not end.
+  bool parse_joint_names(std::string &text, std::string &sub_text1,
                          std::vector<std::string> &joint_names);
 
   /// \brief Extract a sequence of doubles.
diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 45512ee..39952dd 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -96,7 +96,7 @@ bool RulesJointTrajectory::search_exp_sub_string(
   return false;
 }
 
-void RulesJointTrajectory::parse_header(std::string &trajectory,
+bool RulesJointTrajectory::parse_header(std::string &trajectory,
                                         std::string &sub_text1) {
   std::istringstream is;
   boost::match_results<std::string::const_iterator> what;
@@ -122,10 +122,12 @@ void RulesJointTrajectory::parse_header(std::string &trajectory,
 
       std::cout << "sub_text1:" << sub_text1 << std::endl;
     }
+    return true;
   }
+  return false;
 }
 
-void RulesJointTrajectory::parse_joint_names(
+bool RulesJointTrajectory::parse_joint_names(
     std::string &trajectory, std::string &sub_text1,
     std::vector<std::string> &joint_names) {
   std::istringstream is;
@@ -147,10 +149,14 @@ void RulesJointTrajectory::parse_joint_names(
                   << std::endl;
         std::cout << "sub_text1:" << sub_text1 << std::endl;
       }
+    } else {
+      // the list does not end
+      return false;
     }
     trajectory = sub_text1;
 
   } while (joint_names_loop);
+  return true;
 }
 
 bool RulesJointTrajectory::parse_seq(std::string &trajectory,
@@ -188,7 +194,8 @@ bool RulesJointTrajectory::parse_seq(std::string &trajectory,
       if (sep_char == ")") joint_seq_loop = false;
 
     } else {
-      return true;
+      // the sequence does not end
+      return false;
     }
     sub_text2 = sub_text1;
   } while (joint_seq_loop);
@@ -269,10 +276,11 @@ bool RulesJointTrajectory::parse_points(std::string &trajectory,
 
 void RulesJointTrajectory::parse_string(std::string &atext) {
   std::string sub_text1, sub_text2;
-  parse_header(atext, sub_text2);
+  if (!parse_header(atext, sub_text2)) return;
   sub_text1 = sub_text2;
 
-  parse_joint_names(sub_text1, sub_text2, TrajectoryToFill_.joint_names_);
+  if (!parse_joint_names(sub_text1, sub_text2, TrajectoryToFill_.joint_names_))
+    return;
 
   if (dbg_level > 5) {
     for (std::vector<std::string>::size_type i = 0; i < joint_names.size(); i++)
-- 
2.43.0


From 79cb856e31291b7aabc399289f52c0194372ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 037/145] fix: copying a trajectory keeps its joint names

---
 src/tools/trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 39952dd..30fa650 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -291,11 +291,12 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
   parse_points(sub_text1, sub_text2);
 }
 
-Trajectory::Trajectory(void) {}
+Trajectory::Trajectory(void) : time_from_start_(0) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
   header_ = copy.header_;
   time_from_start_ = copy.time_from_start_;
+  joint_names_ = copy.joint_names_;
   points_ = copy.points_;
 }
 
-- 
2.43.0


From 2c149e9065422711a9f9a96796a9317bb68c57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 038/145] fix: reading a trajectory replaces the one read
 before

---
 src/tools/trajectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 30fa650..538f2bd 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -304,6 +304,10 @@ Trajectory::~Trajectory(void) {}
 
 int Trajectory::deserialize(std::istringstream &is) {
   std::string aStr = is.str();
+  // nothing is left of a trajectory read before
+  header_ = Header();
+  joint_names_.clear();
+  points_.clear();
   RulesJointTrajectory aRJT(*this);
   aRJT.parse_string(aStr);
 
-- 
2.43.0


From baba90be2148be0b1c102fc2ec639d78563165d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 039/145] fix: playing a trajectory without an initial one

---
 src/tools/joint-trajectory-entity.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 18317b5..ad2e0f8 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -206,10 +206,11 @@ void SotJointTrajectoryEntity::UpdateTrajectory(const Trajectory &aTrajectory) {
 int &SotJointTrajectoryEntity::OneStepOfUpdate(int &dummy, const int &time) {
   sotDEBUGIN(4);
   const Trajectory &atraj = trajectorySIN(time);
-  if ((atraj.header_.stamp_.secs_ !=
-       deque_traj_.front().header_.stamp_.secs_) ||
-      (atraj.header_.stamp_.nsecs_ !=
-       deque_traj_.front().header_.stamp_.nsecs_)) {
+  if (!deque_traj_.empty() &&
+      ((atraj.header_.stamp_.secs_ !=
+        deque_traj_.front().header_.stamp_.secs_) ||
+       (atraj.header_.stamp_.nsecs_ !=
+        deque_traj_.front().header_.stamp_.nsecs_))) {
     if (index_ < deque_traj_.front().points_.size() - 1) {
       sotDEBUG(4) << "Overwrite trajectory without completion." << index_ << " "
                   << deque_traj_.front().points_.size() << std::endl;
-- 
2.43.0


From 92aed42ba89511b3ff38b0df0081e1780ea6dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 040/145] fix: a trajectory point that is too short is ignored

---
 src/tools/joint-trajectory-entity.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index ad2e0f8..fb07f3f 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -91,9 +91,11 @@ void SotJointTrajectoryEntity::UpdatePoint(const JointTrajectoryPoint &aJTP) {
   sotDEBUGIN(5);
   // Posture
   std::vector<JointTrajectoryPoint>::size_type possize = aJTP.positions_.size();
-  if (possize == 0) return;
+  // A point holds at least the center of mass and the center of pressure:
+  // otherwise the current outputs are kept.
+  if (possize < 5) return;
 
-  pose_.resize(aJTP.positions_.size());
+  pose_.setZero(aJTP.positions_.size());
   for (std::vector<JointTrajectoryPoint>::size_type i = 0; i < possize - 5;
        i++) {
     pose_(i) = aJTP.positions_[i];
-- 
2.43.0


From f3f50629d01f316a8d68a0ad0a2cbdae388ffe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 041/145] fix: a trajectory received again while it is queued
 is not played twice

---
 src/tools/joint-trajectory-entity.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index fb07f3f..52b46e2 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -154,9 +154,11 @@ void SotJointTrajectoryEntity::UpdateTrajectory(const Trajectory &aTrajectory) {
     } else {
       index_++;
       // if it is not already inside the queue.
-      if (deque_traj_.back().header_.stamp_ == aTrajectory.header_.stamp_) {
-      } else
-        deque_traj_.push_back(aTrajectory);
+      bool inside = false;
+      for (std::deque<sot::Trajectory>::const_iterator it = deque_traj_.begin();
+           it != deque_traj_.end(); ++it)
+        if (it->header_.stamp_ == aTrajectory.header_.stamp_) inside = true;
+      if (!inside) deque_traj_.push_back(aTrajectory);
     }
   }
 
-- 
2.43.0


From f697a91c804dbdc9bf9b4001b7e51ffe3e73d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 042/145] fix: the waist of a trajectory point is at the
 position it gives

---
 src/tools/joint-trajectory-entity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 52b46e2..65e06cf 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -240,7 +240,7 @@ sot::MatrixHomogeneous SotJointTrajectoryEntity::XYZThetaToMatrixHomogeneous(
   trans = Eigen::Translation3d(t);
   Eigen::Affine3d _Rd(Eigen::AngleAxisd(xyztheta(3), Eigen::Vector3d::UnitZ()));
   sot::MatrixHomogeneous res;
-  res = _Rd * trans;
+  res = trans * _Rd;
   return res;
 }
 
@@ -278,7 +278,7 @@ sot::MatrixHomogeneous &SotJointTrajectoryEntity::getNextWaist(
   OneStepOfUpdateS(time);
   waist = waist_;
   sotDEBUGOUT(5);
-  return waist_;
+  return waist;
 }
 
 unsigned int &SotJointTrajectoryEntity::getSeqId(unsigned int &seqid,
-- 
2.43.0


From 9045ef8b4c8407ea49532b037c6644255b85ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 043/145] fix: the list of points of a trajectory ends at its
 closing parenthesis

---
 src/tools/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 538f2bd..d9fe7d0 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -265,7 +265,7 @@ bool RulesJointTrajectory::parse_points(std::string &trajectory,
       return false;
     sub_text2 = sub_text1;
     std::string sep_char;
-    sep_char = what[1];
+    sep_char = what[2];
 
     if (sep_char == ")") joint_points_loop = false;
 
-- 
2.43.0


From 88dc83e33cf6a128015065b1f7883ce5c32fee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 044/145] fix: SotLoader closes the library when no controller
 can be created

---
 src/tools/sot-loader.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index e94a364..738fe49 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -86,12 +86,24 @@ bool SotLoader::initialization() {
   const char *dlsym_error = dlerror();
   if (dlsym_error) {
     std::cerr << "Cannot load symbol create: " << dlsym_error << '\n';
+    dlclose(sot_dynamic_library_);
+    sot_dynamic_library_ = nullptr;
     return false;
   }
 
   // Create robot-controller
-  sot_external_interface_ = createSotExternalInterface();
-  assert(sot_external_interface_ && "Fail to create the sotExternalInterface");
+  try {
+    sot_external_interface_ = createSotExternalInterface();
+  } catch (const std::exception &e) {
+    std::cerr << "Exception while creating the controller: " << e.what()
+              << '\n';
+  }
+  if (!sot_external_interface_) {
+    std::cerr << "Fail to create the sotExternalInterface" << '\n';
+    dlclose(sot_dynamic_library_);
+    sot_dynamic_library_ = nullptr;
+    return false;
+  }
   std::cout << "SoT loaded at address [" << &sot_external_interface_
             << "] from " << sot_dynamic_library_filename_ << "." << std::endl;
 
-- 
2.43.0


From 7671d48c1bc84223c24fcc0112f8b2738ae3edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 045/145] fix: SotLoader::cleanUp can be repeated after a
 device was loaded

---
 src/tools/sot-loader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 738fe49..d129cb2 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -144,7 +144,9 @@ void SotLoader::cleanUp() {
   // Unregister the device first if it exists to avoid a double destruction from
   // the pool of entity and the class that handle the Device pointer.
   if (device_name_ != "") {
-    PoolStorage::getInstance()->deregisterEntity(device_name_);
+    if (PoolStorage::getInstance()->existEntity(device_name_))
+      PoolStorage::getInstance()->deregisterEntity(device_name_);
+    device_name_ = "";
   }
 
   // We do not destroy the FactoryStorage singleton because the module will not
-- 
2.43.0


From a40b02bbe1c1c744ea0bf1bc429b928b33cbca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 046/145] fix: SotLoader::cleanUp is not misled by an older
 dynamic loading error

---
 src/tools/sot-loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index d129cb2..a541d38 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -157,6 +157,8 @@ void SotLoader::cleanUp() {
 
   // Load the symbols.
   if (sot_dynamic_library_ != nullptr && sot_external_interface_ != nullptr) {
+    // reset errors
+    dlerror();
     destroySotExternalInterface_t *destroySotExternalInterface =
         reinterpret_cast<destroySotExternalInterface_t *>(
             reinterpret_cast<long>(
-- 
2.43.0


From 54eefe9996f8116f843580d35c4ef29cf9444894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 047/145] fix: SotLoader refuses to run the graph without a
 controller

---
 src/tools/sot-loader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index a541d38..e04b3a0 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -15,6 +15,7 @@
 // C++ includes
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 
 // Boost includes
 #include <boost/program_options.hpp>
@@ -188,6 +189,8 @@ void SotLoader::oneIteration(
     std::map<std::string, SensorValues> &sensors_in,
     std::map<std::string, ControlValues> &control_values) {
   if (!dynamic_graph_stopped_) {
+    if (!sot_external_interface_)
+      throw std::runtime_error("SotLoader: no controller is loaded.");
     try {
       sot_external_interface_->nominalSetSensors(sensors_in);
       sot_external_interface_->getControl(control_values);
-- 
2.43.0


From c77511f60bad7ad216559eae1f82da9acae1d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 048/145] fix: SotLoader keeps the type of an exception of the
 controller

---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index e04b3a0..b5913e8 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -197,7 +197,7 @@ void SotLoader::oneIteration(
     } catch (std::exception &e) {
       std::cout << "Exception while running the graph:\n"
                 << e.what() << std::endl;
-      throw e;
+      throw;
     }
   }
 }
-- 
2.43.0


From 691292fbb563615c476ee3333e25c82c90d2a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 049/145] fix: SotLoader releases a controller before loading
 another one

---
 src/tools/sot-loader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index b5913e8..d845995 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -69,6 +69,9 @@ int SotLoader::parseOptions(int argc, char *argv[]) {
 }
 
 bool SotLoader::initialization() {
+  // Release the controller loaded before, if any.
+  if (sot_external_interface_) cleanUp();
+
   // Load the library containing the AbstractSotExternalInterface.
   sot_dynamic_library_ =
       dlopen(sot_dynamic_library_filename_.c_str(), RTLD_LAZY | RTLD_GLOBAL);
-- 
2.43.0


From 3217ac542601bcb0ae477148dfd97dadf9a3dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 050/145] fix: SotLoader accepts the option help

---
 src/tools/sot-loader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index d845995..cd8d455 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -44,8 +44,7 @@ SotLoader::~SotLoader() { cleanUp(); }
 int SotLoader::parseOptions(int argc, char *argv[]) {
   po::options_description desc("Allowed options");
   desc.add_options()("help", "produce help message")(
-      "sot-dynamic-library", po::value<std::string>(), "Library to load");
-  desc.add_options()("help", "produce help message")(
+      "sot-dynamic-library", po::value<std::string>(), "Library to load")(
       "input-file", po::value<std::string>(), "Library to load");
 
   // Input variable map from the command line (int argc, char* argv[]).
-- 
2.43.0


From a4ae6633e8e8bb0994d066f219e429cbaf4cb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 051/145] fix: SotLoader does not run a controller it has
 failed to release

---
 src/tools/sot-loader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index cd8d455..959bee0 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -169,6 +169,10 @@ void SotLoader::cleanUp() {
     const char *dlsym_error = dlerror();
     if (dlsym_error) {
       std::cerr << "Cannot load symbol destroy: " << dlsym_error << '\n';
+      // The controller cannot be released: it is not used any more, and its
+      // library stays loaded.
+      sot_external_interface_ = nullptr;
+      sot_dynamic_library_ = nullptr;
       return;
     }
 
-- 
2.43.0


From d83bda3eead638b719b58e84c7e24528a67a6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 052/145] fix: Event repeats only while its condition holds

---
 src/tools/event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/event.cpp b/src/tools/event.cpp
index ae388ca..683d4d7 100644
--- a/src/tools/event.cpp
+++ b/src/tools/event.cpp
@@ -18,7 +18,7 @@ bool &Event::check(bool &ret, const int &time) {
     ++timeSinceUp_;
   }
   // If repetition is activated, trigger again after given number of iterations
-  bool trigger = up || (repeatAfterNIterations_ > 0 &&
+  bool trigger = up || (val && repeatAfterNIterations_ > 0 &&
                         timeSinceUp_ >= repeatAfterNIterations_);
   if (ret) {
     lastVal_ = val;
-- 
2.43.0


From cb5a69e715f3480509f010e64666a452c778d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 053/145] fix: the first check of an Event reports a change

---
 include/sot/core/event.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/event.hh b/include/sot/core/event.hh
index c2196af..ccef1da 100644
--- a/include/sot/core/event.hh
+++ b/include/sot/core/event.hh
@@ -115,7 +115,7 @@ class SOT_CORE_DLLAPI Event : public dynamicgraph::Entity {
   Triggers_t triggers;
   SignalPtr<bool, int> conditionSIN;
 
-  bool lastVal_;
+  int lastVal_;
   int timeSinceUp_, repeatAfterNIterations_;
 };
 }  // namespace sot
-- 
2.43.0


From 422ef36c7d0e64143b510a08c16318df7e271c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 054/145] fix: the inputs of a variadic entity stay consistent
 when their number changes

---
 include/sot/core/variadic-op.hh | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 034660e..2a33bff 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -26,6 +26,7 @@
 
 /* STD */
 #include <boost/function.hpp>
+#include <stdexcept>
 #include <string>
 
 namespace dynamicgraph {
@@ -72,6 +73,7 @@ class VariadicAbstract : public Entity {
       _declareSignal(sig);
       signalsIN.push_back(sig);
       // names.push_back (name);
+      updateSignalNumber((int)signalsIN.size());
       return signalsIN.size() - 1;
     } catch (const ExceptionAbstract &) {
       delete sig;
@@ -84,25 +86,13 @@ class VariadicAbstract : public Entity {
     _removeSignal(signalsIN.size() - 1);
     // names.pop_back();
     signalsIN.pop_back();
+    updateSignalNumber((int)signalsIN.size());
   }
 
   void setSignalNumber(const int &n) {
-    assert(n >= 0);
-    const std::size_t oldSize = signalsIN.size();
-    for (std::size_t i = n; i < oldSize; ++i) _removeSignal(i);
-    signalsIN.resize(n, NULL);
-    // names.resize(n);
-
-    for (std::size_t i = oldSize; i < (std::size_t)n; ++i) {
-      assert(signalsIN[i] == NULL);
-      std::ostringstream oss;
-      oss << baseSigname << "sin" << i;
-      // names[i] = oss.str();
-      // signal_t* s = new signal_t (NULL,names[i]);
-      signal_t *s = new signal_t(NULL, oss.str());
-      signalsIN[i] = s;
-      _declareSignal(s);
-    }
+    if (n < 0) throw std::invalid_argument("The number of inputs is negative.");
+    while (signalsIN.size() > (std::size_t)n) removeSignal();
+    while (signalsIN.size() < (std::size_t)n) addSignal();
     updateSignalNumber(n);
   }
 
-- 
2.43.0


From 18d475ca7fb2bd9f6aaa36b68a368a58985a3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 055/145] fix: a change of the inputs or settings of a variadic
 entity acts at the next cycle

---
 include/sot/core/variadic-op.hh | 2 ++
 src/matrix/operator.hh          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 2a33bff..3e892f9 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -117,10 +117,12 @@ class VariadicAbstract : public Entity {
     signalDeregistration(signalsIN[i]->shortName());
     SOUT.removeDependency(*signalsIN[i]);
     delete signalsIN[i];
+    SOUT.setReady();
   }
   void _declareSignal(signal_t *s) {
     signalRegistration(*s);
     SOUT.addDependency(*s);
+    SOUT.setReady();
   }
   const std::string baseSigname;
 };
diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index bd11c8b..5288e12 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -877,6 +877,7 @@ struct VectorMix : public VariadicOpHeader<Vector, Vector> {
 
   inline void addSelec(const int &sigIdx, const int &i, const int &s) {
     idxs.push_back(segment_t(i, s, sigIdx));
+    entity->SOUT.setReady();
   }
 
   inline void initialize(Base *ent, Entity::CommandMap_t &commandMap) {
@@ -917,6 +918,7 @@ struct AdderVariadic : public VariadicOpHeader<T, T> {
     if (entity->getSignalNumber() != c.size())
       throw std::invalid_argument("Invalid coefficient size.");
     coeffs = c;
+    entity->SOUT.setReady();
   }
   inline void updateSignalNumber(const int &n) { coeffs = Vector::Ones(n); }
 
-- 
2.43.0


From 44c65e7243cea6be96327e737a14d7f68abaefd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 056/145] fix: VectorMix refuses selections that do not fit its
 inputs

---
 src/matrix/operator.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 5288e12..b6629dc 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -866,10 +866,12 @@ struct VectorMix : public VariadicOpHeader<Vector, Vector> {
   segments_t idxs;
   inline void operator()(const std::vector<const Vector *> &vs,
                          Vector &res) const {
+    if (vs.empty()) throw std::invalid_argument("VectorMix has no input");
     res = *vs[0];
     for (std::size_t i = 0; i < idxs.size(); ++i) {
       const segment_t &s = idxs[i];
-      if (s.sigIdx >= vs.size())
+      if (s.sigIdx >= vs.size() || s.index < 0 || s.size < 0 ||
+          s.index + s.size > res.size() || vs[s.sigIdx]->size() != s.size)
         throw std::invalid_argument("Index out of range in VectorMix");
       res.segment(s.index, s.size) = *vs[s.sigIdx];
     }
-- 
2.43.0


From db66fc84357e817d1fc8a51e4e18a6e3c45f5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 057/145] fix: boolean operators without input give their
 neutral element

---
 src/matrix/operator.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index b6629dc..e387177 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -997,7 +997,10 @@ struct BoolOp : public VariadicOpHeader<bool, bool> {
     // TODO computation could be optimized with lazy evaluation of the
     // signals. When the output result is know, the remaining signals are
     // not computed.
-    if (vs.size() == 0) return;
+    if (vs.size() == 0) {
+      res = (operation == 0);
+      return;
+    }
     res = *vs[0];
     for (std::size_t i = 1; i < vs.size(); ++i) switch (operation) {
         case 0:
-- 
2.43.0


From f8cd3e887119e38191d229fdcbfa6d42fbacabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 058/145] fix: asking a variadic entity for its current number
 of inputs resets it at the next cycle

---
 include/sot/core/variadic-op.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 3e892f9..7f2ebda 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -94,6 +94,7 @@ class VariadicAbstract : public Entity {
     while (signalsIN.size() > (std::size_t)n) removeSignal();
     while (signalsIN.size() < (std::size_t)n) addSignal();
     updateSignalNumber(n);
+    SOUT.setReady();
   }
 
   int getSignalNumber() const { return (int)signalsIN.size(); }
-- 
2.43.0


From 9f90e77307e941d698fb3a1faac07b7a82510e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:23 +0000
Subject: [PATCH 059/145] fix: a feature whose reference changes refreshes its
 outputs

---
 include/sot/core/feature-abstract.hh | 13 ++++++++-----
 src/feature/feature-abstract.cpp     | 16 +++++++++++-----
 src/feature/feature-visual-point.cpp |  2 ++
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 18fea95..0822e49 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -219,6 +219,9 @@ class SOT_CORE_EXPORT FeatureAbstract : public Entity {
   virtual void addDependenciesFromReference(void) = 0;
   virtual void removeDependenciesFromReference(void) = 0;
 
+  /// Make the output signals be computed again after a change of reference.
+  void referenceChanged();
+
   /* Commands for bindings. */
   void setReferenceByName(const std::string &name);
   std::string getReferenceByName(void) const;
@@ -251,15 +254,15 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
 #define DECLARE_REFERENCE_FUNCTIONS(FeatureSpecialized)             \
   typedef FeatureReferenceHelper<FeatureSpecialized> SP;            \
   virtual void setReference(FeatureAbstract *sdes) {                \
-    if (sdes == NULL) {                                             \
-      /* UNSET */                                                   \
-      if (SP::isReferenceSet()) removeDependenciesFromReference();  \
-      SP::unsetReference();                                         \
-    } else {                                                        \
+    /* UNSET */                                                     \
+    if (SP::isReferenceSet()) removeDependenciesFromReference();    \
+    SP::unsetReference();                                           \
+    if (sdes != NULL) {                                             \
       /* SET */                                                     \
       SP::setReference(sdes);                                       \
       if (SP::isReferenceSet()) addDependenciesFromReference();     \
     }                                                               \
+    referenceChanged();                                             \
   }                                                                 \
   virtual const FeatureAbstract *getReferenceAbstract(void) const { \
     return SP::getReference();                                      \
diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 42c0791..18e8a76 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -85,6 +85,13 @@ void FeatureAbstract::setReferenceByName(const std::string &name) {
       &dynamicgraph::sot::PoolStorage::getInstance()->getFeature(name));
 }
 
+void FeatureAbstract::referenceChanged() {
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
+  jacobianSOUT.setReady();
+  dimensionSOUT.setReady();
+}
+
 std::string FeatureAbstract::getReferenceByName() const {
   if (isReferenceSet())
     return getReferenceAbstract()->getName();
@@ -95,7 +102,7 @@ std::string FeatureAbstract::getReferenceByName() const {
 dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     dynamicgraph::Vector &res, int time) {
   const Flags &fl = selectionSIN.access(time);
-  const int &dim = dimensionSOUT(time);
+  const unsigned int &dim = dimensionSOUT(time);
 
   unsigned int curr = 0;
   res.resize(dim);
@@ -106,16 +113,15 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     const dynamicgraph::Vector &errdotDes =
         getReferenceAbstract()->errordotSIN(time);
     sotDEBUG(15) << "Err* = " << errdotDes;
-    if (errdotDes.size() < dim) {
+    for (int i = 0; i < errdotDes.size() && curr < dim; ++i)
+      if (fl(i)) res(curr++) = -errdotDes(i);
+    if (curr < dim) {
       SOT_THROW ExceptionFeature(
           ExceptionFeature::UNCOMPATIBLE_SIZE,
           "Error: dimension uncompatible with des->errorIN size."
           " (while considering feature <%s>).",
           getName().c_str());
     }
-
-    for (int i = 0; i < errdotDes.size(); ++i)
-      if (fl(i)) res(curr++) = -errdotDes(i);
   } else
     res.setZero();
 
diff --git a/src/feature/feature-visual-point.cpp b/src/feature/feature-visual-point.cpp
index b216727..b2847e8 100644
--- a/src/feature/feature-visual-point.cpp
+++ b/src/feature/feature-visual-point.cpp
@@ -48,11 +48,13 @@ FeatureVisualPoint::FeatureVisualPoint(const string &pointName)
 void FeatureVisualPoint::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->xySIN);
+  errordotSOUT.addDependency(getReference()->errordotSIN);
 }
 
 void FeatureVisualPoint::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->xySIN);
+  errordotSOUT.removeDependency(getReference()->errordotSIN);
 }
 
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From e3a31b476476f0c6fbd2b8f3d6f24865f1ef51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 060/145] fix: FeatureGeneric follows the current size of its
 error

---
 include/sot/core/feature-generic.hh |  3 ---
 src/feature/feature-generic.cpp     | 31 ++++++++++++++++-------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/sot/core/feature-generic.hh b/include/sot/core/feature-generic.hh
index 70ad715..296bbd3 100644
--- a/include/sot/core/feature-generic.hh
+++ b/include/sot/core/feature-generic.hh
@@ -62,9 +62,6 @@ class SOTFEATUREGENERIC_EXPORT FeatureGeneric
   /*! Returns the name of the class. */
   virtual const std::string &getClassName(void) const { return CLASS_NAME; }
 
- protected:
-  dynamicgraph::Vector::Index dimensionDefault;
-
   /* --- SIGNALS ------------------------------------------------------------ */
  public:
   /*! \name dynamicgraph::Signals
diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index a330dc7..9a68bc0 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -28,7 +28,6 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeatureGeneric, "FeatureGeneric");
 
 FeatureGeneric::FeatureGeneric(const string &pointName)
     : FeatureAbstract(pointName),
-      dimensionDefault(0),
       errorSIN(NULL, "sotFeatureGeneric(" + name + ")::input(vector)::errorIN"),
       jacobianSIN(NULL,
                   "sotFeatureGeneric(" + name + ")::input(matrix)::jacobianIN")
@@ -36,6 +35,9 @@ FeatureGeneric::FeatureGeneric(const string &pointName)
 {
   jacobianSOUT.addDependency(jacobianSIN);
   errorSOUT.addDependency(errorSIN);
+  dimensionSOUT.addDependency(errorSIN);
+  jacobianSOUT.addDependency(dimensionSOUT);
+  errordotSOUT.addDependency(dimensionSOUT);
 
   signalRegistration(errorSIN << jacobianSIN << errordotSIN << errordotSOUT);
 }
@@ -65,11 +67,11 @@ unsigned int &FeatureGeneric::getDimension(unsigned int &dim, int time) {
 
   const Flags &fl = selectionSIN.access(time);
 
-  if (dimensionDefault == 0) dimensionDefault = errorSIN.access(time).size();
+  const Vector::Index size = errorSIN.access(time).size();
 
   dim = 0;
-  for (unsigned int i = 0; i < dimensionDefault; ++i)
-    if (fl(i)) dim++;
+  for (Vector::Index i = 0; i < size; ++i)
+    if (fl(static_cast<int>(i))) dim++;
 
   sotDEBUG(25) << "# Out }" << endl;
   return dim;
@@ -78,17 +80,10 @@ unsigned int &FeatureGeneric::getDimension(unsigned int &dim, int time) {
 Vector &FeatureGeneric::computeError(Vector &res, int time) {
   const Vector &err = errorSIN.access(time);
   const Flags &fl = selectionSIN.access(time);
-  const int &dim = dimensionSOUT(time);
+  const unsigned int &dim = dimensionSOUT(time);
 
   unsigned int curr = 0;
   res.resize(dim);
-  if (err.size() < dim) {
-    SOT_THROW ExceptionFeature(
-        ExceptionFeature::UNCOMPATIBLE_SIZE,
-        "Error: dimension uncompatible with des->errorIN size."
-        " (while considering feature <%s>).",
-        getName().c_str());
-  }
 
   sotDEBUG(15) << "Err = " << err;
   sotDEBUG(25) << "Dim = " << dim << endl;
@@ -96,7 +91,7 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
   if (isReferenceSet()) {
     const Vector &errDes = getReference()->errorSIN(time);
     sotDEBUG(15) << "Err* = " << errDes;
-    if (errDes.size() < dim) {
+    if (errDes.size() < err.size()) {
       SOT_THROW ExceptionFeature(
           ExceptionFeature::UNCOMPATIBLE_SIZE,
           "Error: dimension uncompatible with des->errorIN size."
@@ -125,11 +120,19 @@ Matrix &FeatureGeneric::computeJacobian(Matrix &res, int time) {
   unsigned int curr = 0;
   res.resize(dim, Jac.cols());
 
-  for (unsigned int i = 0; curr < dim; ++i)
+  for (int i = 0; curr < dim; ++i) {
+    if (i >= Jac.rows()) {
+      SOT_THROW ExceptionFeature(
+          ExceptionFeature::UNCOMPATIBLE_SIZE,
+          "Error: dimension uncompatible with jacobianIN size."
+          " (while considering feature <%s>).",
+          getName().c_str());
+    }
     if (fl(i)) {
       for (int j = 0; j < Jac.cols(); ++j) res(curr, j) = Jac(i, j);
       curr++;
     }
+  }
 
   sotDEBUGOUT(15);
   return res;
-- 
2.43.0


From ef7707abbc8bd0cb60628206253db84136e89473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 061/145] fix: Feature1D and FeatureVector3 Jacobians depend on
 the signals they read

---
 src/feature/feature-1d.cpp      | 9 +++++++++
 src/feature/feature-vector3.cpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index 9635784..c96b590 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -33,6 +33,7 @@ Feature1D::Feature1D(const string &pointName)
       jacobianSIN(NULL,
                   "sotFeature1D(" + name + ")::input(matrix)::jacobianIN") {
   jacobianSOUT.addDependency(jacobianSIN);
+  jacobianSOUT.addDependency(errorSIN);
   errorSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN);
@@ -74,6 +75,14 @@ dynamicgraph::Matrix &Feature1D::computeJacobian(dynamicgraph::Matrix &res,
   const dynamicgraph::Matrix &Jac = jacobianSIN.access(time);
   const dynamicgraph::Vector &err = errorSIN.access(time);
 
+  if (Jac.rows() != err.size()) {
+    SOT_THROW ExceptionFeature(
+        ExceptionFeature::UNCOMPATIBLE_SIZE,
+        "Error: dimension uncompatible between errorIN and jacobianIN."
+        " (while considering feature <%s>).",
+        getName().c_str());
+  }
+
   res.resize(1, Jac.cols());
   res.fill(0);
   for (int j = 0; j < Jac.cols(); ++j)
diff --git a/src/feature/feature-vector3.cpp b/src/feature/feature-vector3.cpp
index 9b7899d..70de434 100644
--- a/src/feature/feature-vector3.cpp
+++ b/src/feature/feature-vector3.cpp
@@ -40,6 +40,7 @@ FeatureVector3::FeatureVector3(const string &pointName)
           NULL, "sotFeatureVector3(" + name + ")::input(matrix)::Jq"),
       positionRefSIN(
           NULL, "sotFeatureVector3(" + name + ")::input(vector)::positionRef") {
+  jacobianSOUT.addDependency(vectorSIN);
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
 
-- 
2.43.0


From 74673383011d394803f15d35a0918f9643b32889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 062/145] fix: FeatureJointLimits Jacobian is the derivative of
 its error

---
 include/sot/core/feature-joint-limits.hh |  4 +++
 src/feature/feature-joint-limits.cpp     | 32 ++++++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/sot/core/feature-joint-limits.hh b/include/sot/core/feature-joint-limits.hh
index 33dd27c..73bec4f 100644
--- a/include/sot/core/feature-joint-limits.hh
+++ b/include/sot/core/feature-joint-limits.hh
@@ -93,6 +93,10 @@ class SOTFEATUREJOINTLIMITS_EXPORT FeatureJointLimits
   inline static Flags selectActuated(void);
 
   virtual void display(std::ostream &os) const;
+
+ private:
+  void checkSize(dynamicgraph::Vector::Index joints,
+                 dynamicgraph::Vector::Index limits) const;
 };
 
 } /* namespace sot */
diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index c36ef57..57084b2 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -50,6 +50,12 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
   errorSOUT.addDependency(upperJlSIN);
   errorSOUT.addDependency(lowerJlSIN);
 
+  jacobianSOUT.addDependency(jointSIN);
+  jacobianSOUT.addDependency(upperJlSIN);
+  jacobianSOUT.addDependency(lowerJlSIN);
+
+  dimensionSOUT.addDependency(upperJlSIN);
+
   signalRegistration(jointSIN << upperJlSIN << lowerJlSIN << widthJlSINTERN);
 
   // Commands
@@ -93,6 +99,13 @@ Vector &FeatureJointLimits::computeWidthJl(Vector &res, const int &time) {
   const Vector UJL = upperJlSIN.access(time);
   const Vector LJL = lowerJlSIN.access(time);
   const Vector::Index SIZE = UJL.size();
+  if (LJL.size() != SIZE) {
+    SOT_THROW ExceptionFeature(
+        ExceptionFeature::UNCOMPATIBLE_SIZE,
+        "Error: the joint limits do not have the same size."
+        " (while considering feature <%s>).",
+        getName().c_str());
+  }
   res.resize(SIZE);
 
   for (Vector::Index i = 0; i < SIZE; ++i) {
@@ -103,6 +116,17 @@ Vector &FeatureJointLimits::computeWidthJl(Vector &res, const int &time) {
   return res;
 }
 
+void FeatureJointLimits::checkSize(Vector::Index joints,
+                                   Vector::Index limits) const {
+  if (joints != limits) {
+    SOT_THROW ExceptionFeature(
+        ExceptionFeature::UNCOMPATIBLE_SIZE,
+        "Error: the joint vector and its limits do not have the same size."
+        " (while considering feature <%s>).",
+        getName().c_str());
+  }
+}
+
 /** Compute the interaction matrix from a subset of
  * the possible features.
  */
@@ -115,6 +139,7 @@ Matrix &FeatureJointLimits::computeJacobian(Matrix &J, int time) {
   // const unsigned int SIZE_FF=SIZE+freeFloatingSize;
   const Vector::Index SIZE_TOTAL = q.size();
   const Vector WJL = widthJlSINTERN.access(time);
+  checkSize(SIZE_TOTAL, WJL.size());
   J.resize(SIZE, SIZE_TOTAL);
   J.setZero();
 
@@ -122,7 +147,7 @@ Matrix &FeatureJointLimits::computeJacobian(Matrix &J, int time) {
   for (unsigned int i = 0; i < SIZE_TOTAL; ++i) {
     if (fl(i)) {
       if (fabs(WJL(i)) > 1e-3)
-        J(idx, i) = 1 / WJL(i);
+        J(idx, i) = 2 / WJL(i);
       else
         J(idx, i) = 1.;
       idx++;
@@ -164,10 +189,7 @@ Vector &FeatureJointLimits::computeError(Vector &error, int time) {
   sotDEBUG(25) << "Wjl = " << WJL << endl;
   sotDEBUG(25) << "dim = " << SIZE << endl;
 
-  assert(UJL.size() == SIZE_TOTAL);
-  assert(WJL.size() == SIZE_TOTAL);
-  assert(LJL.size() == SIZE_TOTAL);
-  assert(SIZE <= SIZE_TOTAL);
+  checkSize(SIZE_TOTAL, WJL.size());
 
   error.resize(SIZE);
 
-- 
2.43.0


From 1d95f7e18332289220d50dc701c531611b1e531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 063/145] fix: the actuate command of FeatureJointLimits
 selects its degrees of freedom

---
 src/feature/feature-joint-limits-command.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits-command.h b/src/feature/feature-joint-limits-command.h
index 08fface..bc20305 100644
--- a/src/feature/feature-joint-limits-command.h
+++ b/src/feature/feature-joint-limits-command.h
@@ -33,7 +33,7 @@ class Actuate : public Command {
       : Command(entity, std::vector<Value::Type>(), docstring) {}
   virtual Value doExecute() {
     FeatureJointLimits &fjl = static_cast<FeatureJointLimits &>(owner());
-    Flags fl(63);  // 0x0000003f = 00000000000000000000000000111111
+    Flags fl("111111");  // the six degrees of freedom of the free flyer
     fjl.selectionSIN = (!fl);
     // return void
     return Value();
-- 
2.43.0


From df302d6298e9a3f7f43c0ee02c9c7b2e61601722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 064/145] fix: FeatureLineDistance depends on all its inputs
 and derives its error completely

---
 src/feature/feature-line-distance.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 48d2b24..ac8c9ae 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -41,12 +41,16 @@ FeatureLineDistance::FeatureLineDistance(const string &pointName)
                 "sotFeatureVector3(" + name + ")::input(vector3)::vector"),
       lineSOUT(boost::bind(&FeatureLineDistance::computeLineCoordinates, this,
                            _1, _2),
-               positionSIN << positionRefSIN,
+               positionSIN << vectorSIN,
                "sotFeatureAbstract(" + name + ")::output(vector)::line") {
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
+  jacobianSOUT.addDependency(positionRefSIN);
+  jacobianSOUT.addDependency(vectorSIN);
 
   errorSOUT.addDependency(positionSIN);
+  errorSOUT.addDependency(positionRefSIN);
+  errorSOUT.addDependency(vectorSIN);
 
   signalRegistration(positionSIN << articularJacobianSIN << positionRefSIN
                                  << lineSOUT << vectorSIN);
@@ -218,6 +222,13 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
       2 * a0 * b1 * z0 * b0 * c1 * c1 - 2 * a0 * b1 * b1 * z0 * c1 * c0 -
       2 * a0 * b1 * z1 * b0 * c1 * c1 + 2 * a0 * b1 * b1 * z1 * c1 * c0;
 
+  // With c = v0 x v1 and d = p1 - p0, the error is d.c / K where K = c.c and
+  // its derivative wrt v0 is (v1 x d) / K - 2 (d.c) (v1 x c) / K^2.
+  const double num =
+      diffx0 * (x0 - x1) + diffy0 * (y0 - y1) + diffz0 * (z0 - z1);
+  const double diffc0 = (a1 * (y1 - y0) - b1 * (x1 - x0)) * K -
+                        2 * num * (b1 * diffx0 - a1 * diffy0);
+
   Matrix diffh(1, 6);
   diffh(0, 0) = diffx0 / K;
   diffh(0, 1) = diffy0 / K;
@@ -225,7 +236,7 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
   K *= K;
   diffh(0, 3) = diffa0 / K;
   diffh(0, 4) = diffb0 / K;
-  diffh(0, 5) = 0;
+  diffh(0, 5) = diffc0 / K;
 
   /* --- Multiply Jline=dline/dq with diffh=de/dline --- */
   J.resize(1, J.cols());
-- 
2.43.0


From ad0c134002db41d2776cadcb7d833c2d64f7dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 065/145] fix: FeaturePoint6d follows its reference and its
 computation frame

---
 src/feature/feature-point6d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 6e63116..18e73cd 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -115,12 +115,16 @@ FeaturePoint6d::FeaturePoint6d(const string &pointName)
 void FeaturePoint6d::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->velocitySIN);
   jacobianSOUT.addDependency(getReference()->positionSIN);
 }
 
 void FeaturePoint6d::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->velocitySIN);
   jacobianSOUT.removeDependency(getReference()->positionSIN);
 }
 
@@ -138,6 +142,7 @@ void FeaturePoint6d::computationFrame(const std::string &inFrame) {
                     "expecting 'current' or 'desired'");
     throw ExceptionFeature(ExceptionFeature::GENERIC, msg);
   }
+  referenceChanged();
 }
 
 /// \brief Get computation frame
-- 
2.43.0


From dc6c053560c43a7f733b0ddb8d73b07010bf7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 066/145] fix: FeaturePosture checks the sizes of its inputs
 and refreshes its outputs on selection

---
 include/sot/core/feature-posture.hh |  3 +++
 src/feature/feature-posture.cpp     | 29 +++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/sot/core/feature-posture.hh b/include/sot/core/feature-posture.hh
index d89054c..6c1d592 100644
--- a/include/sot/core/feature-posture.hh
+++ b/include/sot/core/feature-posture.hh
@@ -76,6 +76,9 @@ class SOTFEATUREPOSTURE_EXPORT FeaturePosture : public FeatureAbstract {
   signalOut_t error_;
 
  private:
+  /// Check that an input has the dimension the active dofs were selected for.
+  void checkSize(dynamicgraph::Vector::Index size) const;
+
   std::vector<bool> activeDofs_;
   std::size_t nbActiveDofs_;
 };  // class FeaturePosture
diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index ca60c5c..975aef2 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -44,6 +44,8 @@ FeaturePosture::FeaturePosture(const std::string &name)
   signalRegistration(state_ << posture_ << postureDot_);
 
   errorSOUT.addDependency(state_);
+  errorSOUT.addDependency(posture_);
+  errordotSOUT.addDependency(postureDot_);
   jacobianSOUT.setConstant(Matrix());
 
   std::string docstring;
@@ -70,10 +72,20 @@ unsigned int &FeaturePosture::getDimension(unsigned int &res, int) {
   return res;
 }
 
+void FeaturePosture::checkSize(Vector::Index size) const {
+  if (!activeDofs_.empty() && (std::size_t)size != activeDofs_.size())
+    throw std::runtime_error(
+        "Inputs of the posture feature should have the dimension of the state "
+        "for which degrees of freedom have been selected.");
+}
+
 dg::Vector &FeaturePosture::computeError(dg::Vector &res, int t) {
   const dg::Vector &state = state_.access(t);
   const dg::Vector &posture = posture_.access(t);
 
+  checkSize(state.size());
+  checkSize(posture.size());
+
   res.resize(nbActiveDofs_);
   std::size_t index = 0;
   for (std::size_t i = 0; i < activeDofs_.size(); ++i) {
@@ -94,6 +106,8 @@ dg::Matrix &FeaturePosture::computeJacobian(dg::Matrix &, int) {
 dg::Vector &FeaturePosture::computeErrorDot(dg::Vector &res, int t) {
   const Vector &postureDot = postureDot_.access(t);
 
+  checkSize(postureDot.size());
+
   res.resize(nbActiveDofs_);
   std::size_t index = 0;
   for (std::size_t i = 0; i < activeDofs_.size(); ++i) {
@@ -110,12 +124,6 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   if (dim != (std::size_t)posture.size()) {
     throw std::runtime_error("Posture and State should have same dimension.");
   }
-  // If activeDof_ vector not initialized, initialize it
-  if (activeDofs_.size() != dim) {
-    activeDofs_ = std::vector<bool>(dim, false);
-    nbActiveDofs_ = 0;
-  }
-
   // Check that selected dof id is valid
   if (dofId >= dim) {
     std::ostringstream oss;
@@ -124,6 +132,12 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
     throw ExceptionAbstract(ExceptionAbstract::TOOLS, oss.str());
   }
 
+  // If activeDof_ vector not initialized, initialize it
+  if (activeDofs_.size() != dim) {
+    activeDofs_ = std::vector<bool>(dim, false);
+    nbActiveDofs_ = 0;
+  }
+
   if (control) {
     if (!activeDofs_[dofId]) {
       activeDofs_[dofId] = true;
@@ -147,6 +161,9 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   }
 
   jacobianSOUT.setConstant(J);
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
+  dimensionSOUT.setReady();
 }
 
 DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeaturePosture, "FeaturePosture");
-- 
2.43.0


From 7475969fd67731c0dd8f03b35bd84e61e41efd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 067/145] fix: VisualPointProjecter applies a homogeneous
 transformation to a point

---
 src/feature/visual-point-projecter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/visual-point-projecter.cpp b/src/feature/visual-point-projecter.cpp
index 6f1c500..4ec2012 100644
--- a/src/feature/visual-point-projecter.cpp
+++ b/src/feature/visual-point-projecter.cpp
@@ -51,7 +51,7 @@ dynamicgraph::Vector &VisualPointProjecter::point3DgazeSOUT_function(
   const MatrixHomogeneous &M = m_transfoSIN(iter);
   MatrixHomogeneous Mi;
   Mi = M.inverse(Eigen::Affine);
-  p3g = Mi.matrix() * p3;
+  p3g = Mi.linear() * p3 + Mi.translation();
   return p3g;
 }
 
-- 
2.43.0


From b03abdacaa811dcce32531c0780fde6ea4f8bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 068/145] fix: FIRFilter of scalars restarts its sum at every
 cycle

---
 src/matrix/fir-filter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/fir-filter.cpp b/src/matrix/fir-filter.cpp
index 358cf45..0d55aad 100644
--- a/src/matrix/fir-filter.cpp
+++ b/src/matrix/fir-filter.cpp
@@ -51,6 +51,12 @@ SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, double, vec_double,
 SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, Matrix, vec_mat,
                                    "FIRFilter")
 
+template <>
+void FIRFilter<double, double>::reset_signal(double &res,
+                                             const double & /*sample*/) {
+  res = 0.;
+}
+
 template <>
 void FIRFilter<Vector, double>::reset_signal(Vector &res,
                                              const Vector &sample) {
-- 
2.43.0


From fbac74f4e9a9fbf3c4c08b89085ce77d169cdbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 069/145] fix: FIRFilter refuses ranks outside its coefficients

---
 include/sot/core/fir-filter.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/fir-filter.hh b/include/sot/core/fir-filter.hh
index 26a48a2..01fb129 100644
--- a/include/sot/core/fir-filter.hh
+++ b/include/sot/core/fir-filter.hh
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cassert>
 #include <iterator>
+#include <stdexcept>
 #include <vector>
 
 namespace dynamicgraph {
@@ -33,6 +34,7 @@ class circular_buffer {
  public:
   circular_buffer() : buf(1), start(0), numel(0) {}
   void push_front(const T &data) {
+    if (buf.empty()) return;
     if (start) {
       --start;
     } else {
@@ -185,10 +187,16 @@ class FIRFilter : public Entity {
   }
 
   void setElement(const unsigned int &rank, const coefT &coef) {
+    if (rank >= coefs.size())
+      throw std::out_of_range("FIRFilter: no coefficient of this rank.");
     coefs[rank] = coef;
   }
 
-  coefT getElement(const unsigned int &rank) const { return coefs[rank]; }
+  coefT getElement(const unsigned int &rank) const {
+    if (rank >= coefs.size())
+      throw std::out_of_range("FIRFilter: no coefficient of this rank.");
+    return coefs[rank];
+  }
 
   static void reset_signal(sigT & /*res*/, const sigT & /*sample*/) {}
 
-- 
2.43.0


From f628d309737cd86592f4531c20796b02c52c819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 070/145] fix: IntegratorEuler refuses to integrate with other
 coefficients than initialized

---
 include/sot/core/integrator-euler.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sot/core/integrator-euler.hh b/include/sot/core/integrator-euler.hh
index 92b761b..d92cc3d 100644
--- a/include/sot/core/integrator-euler.hh
+++ b/include/sot/core/integrator-euler.hh
@@ -111,6 +111,13 @@ class IntegratorEuler : public IntegratorAbstract<sigT, coefT> {
     const std::vector<coefT> &num = numerator;
     const std::vector<coefT> &denom = denominator;
 
+    if (num.empty() || denom.empty() || inputMemory.size() != num.size() ||
+        outputMemory.size() != denom.size())
+      throw dynamicgraph::ExceptionSignal(
+          dynamicgraph::ExceptionSignal::GENERIC,
+          "The integrator should be initialized after its coefficients are "
+          "set.");
+
     // Step 1
     tmp1 = inputMemory[0];
     inputMemory[0] = SIN.access(time);
-- 
2.43.0


From 79e0cacdcb1dbab85c5d34e51f0259754b43f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 071/145] fix: popping a coefficient of an empty integrator
 polynomial raises

---
 include/sot/core/integrator-abstract.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/integrator-abstract.hh b/include/sot/core/integrator-abstract.hh
index 840797b..3369528 100644
--- a/include/sot/core/integrator-abstract.hh
+++ b/include/sot/core/integrator-abstract.hh
@@ -27,6 +27,7 @@
 #include <sot/core/flags.hh>
 
 /* STD */
+#include <stdexcept>
 #include <string>
 
 /* --------------------------------------------------------------------- */
@@ -88,8 +89,16 @@ class IntegratorAbstract : public dynamicgraph::Entity {
   void pushDenomCoef(const coefT &denomCoef) {
     denominator.push_back(denomCoef);
   }
-  void popNumCoef() { numerator.pop_back(); }
-  void popDenomCoef() { denominator.pop_back(); }
+  void popNumCoef() {
+    if (numerator.empty())
+      throw std::out_of_range("There is no numerator coefficient to pop.");
+    numerator.pop_back();
+  }
+  void popDenomCoef() {
+    if (denominator.empty())
+      throw std::out_of_range("There is no denominator coefficient to pop.");
+    denominator.pop_back();
+  }
 
   const std::vector<coefT> &numCoeffs() const { return numerator; }
   void numCoeffs(const std::vector<coefT> &coeffs) { numerator = coeffs; }
-- 
2.43.0


From aab20d58eb267427b4cdec53825ebca495fcabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 072/145] fix: Derivator is initialized only once its input has
 been read

---
 include/sot/core/derivator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/derivator.hh b/include/sot/core/derivator.hh
index ea72dcd..17c560e 100644
--- a/include/sot/core/derivator.hh
+++ b/include/sot/core/derivator.hh
@@ -81,8 +81,8 @@ class Derivator : public dynamicgraph::Entity {
       res += memory;
       if (timestep != 1.) res *= (1. / timestep);
     } else {
-      initialized = true;
       memory = SIN(time);
+      initialized = true;
       res = memory;
       res *= 0;
     }
@@ -100,8 +100,8 @@ VectorQuaternion &Derivator<VectorQuaternion>::computeDerivation(
     res.coeffs() += memory.coeffs();
     if (timestep != 1.) res.coeffs() *= (1. / timestep);
   } else {
-    initialized = true;
     memory = SIN(time);
+    initialized = true;
     res = memory;
     res.coeffs() *= 0;
   }
-- 
2.43.0


From 26ec45d2652d36ddf9a37a40e6cbc645ad1f78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 073/145] fix: the data reader loads lines of any length

---
 src/traces/reader.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index def2806..a548d31 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -57,14 +57,12 @@ void sotReader::load(const string &filename) {
   sotDEBUGIN(15);
 
   std::ifstream datafile(filename.c_str());
-  const unsigned int SIZE = 1024;
-  char buffer[SIZE];
+  std::string buffer;
   std::vector<double> newline;
   while (datafile.good()) {
-    datafile.getline(buffer, SIZE);
-    const unsigned int gcount = (unsigned int)(datafile.gcount());
-    if (gcount >= SIZE) { /* TODO read error, line to long. */
-    }
+    std::getline(datafile, buffer);
+    // A line cut by a read error may hold a part of a value only.
+    if (datafile.bad()) break;
     std::istringstream iss(buffer);
     newline.clear();
     sotDEBUG(25) << "Get line = '" << buffer << "'" << std::endl;
-- 
2.43.0


From 412734f73240872bc1f89edc0c487f0c6287eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:24 +0000
Subject: [PATCH 074/145] fix: the data reader repeats the last line at the end
 of data

---
 src/traces/reader.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index a548d31..55d296d 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -100,20 +100,25 @@ dynamicgraph::Vector &sotReader::getNextData(dynamicgraph::Vector &res,
                                              const unsigned int time) {
   sotDEBUGIN(15);
 
+  if (dataSet.empty()) {
+    res.resize(0);
+    sotDEBUGOUT(15);
+    return res;
+  }
+
+  // Read before the cursor moves: a line is not lost if this fails.
+  const Flags &selection = selectionSIN(time);
+
   if (!iteratorSet) {
     sotDEBUG(15) << "Start the list" << std::endl;
     currentData = dataSet.begin();
     iteratorSet = true;
-  } else if (currentData != dataSet.end()) {
-    ++currentData;
+  } else {
+    // At the end of the data, the last line is repeated.
+    DataType::const_iterator next = currentData;
+    if (++next != dataSet.end()) currentData = next;
   }
 
-  if (currentData == dataSet.end()) {
-    sotDEBUGOUT(15);
-    return res;
-  }
-
-  const Flags &selection = selectionSIN(time);
   const std::vector<double> &curr = *currentData;
 
   unsigned int dim = 0;
-- 
2.43.0


From 0f7d108ed7bc75fb7b730292b0ba3629e083a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:24 +0000
Subject: [PATCH 075/145] fix: the data reader refuses negative matrix sizes

---
 src/traces/reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index 55d296d..4d6b0d2 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -19,6 +19,7 @@
 #include <sot/core/debug.hh>
 #include <sot/core/reader.hh>
 #include <sstream>
+#include <stdexcept>
 
 using namespace dynamicgraph;
 using namespace dynamicgraph::sot;
@@ -176,6 +177,8 @@ void sotReader::initCommands() {
 }
 
 void sotReader::resize(const int &row, const int &col) {
+  if (row < 0 || col < 0)
+    throw std::invalid_argument("Reader: the size of a matrix is not negative");
   rows = row;
   cols = col;
 }
-- 
2.43.0


From 326da13d8489db35572efdc3a48151ac0c4fe981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 076/145] fix: features and tasks leave the pool when they are
 deleted

---
 include/sot/core/feature-abstract.hh |  2 +-
 include/sot/core/pool.hh             |  5 +++++
 include/sot/core/task-abstract.hh    |  1 +
 src/factory/pool.cpp                 | 12 ++++++++++++
 src/feature/feature-abstract.cpp     |  4 ++++
 src/task/task-abstract.cpp           |  4 ++++
 6 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 0822e49..885e32f 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -90,7 +90,7 @@ class SOT_CORE_EXPORT FeatureAbstract : public Entity {
   /*! \brief Default constructor: the name of the class should be given. */
   FeatureAbstract(const std::string &name);
   /*! \brief Default destructor */
-  virtual ~FeatureAbstract(void){};
+  virtual ~FeatureAbstract(void);
 
   /*! \name Methods returning the dimension of the feature.
     @{ */
diff --git a/include/sot/core/pool.hh b/include/sot/core/pool.hh
index f68118d..cc414c4 100644
--- a/include/sot/core/pool.hh
+++ b/include/sot/core/pool.hh
@@ -101,6 +101,9 @@ class SOT_CORE_EXPORT PoolStorage {
   /*! \brief Registering a feature. */
   void registerFeature(const std::string &entname, FeatureAbstract *ent);
 
+  /*! \brief Forget a feature, if it is the one registered under this name. */
+  void deregisterFeature(const std::string &entname, FeatureAbstract *ent);
+
   /*! \brief Get a reference to a feature. */
   FeatureAbstract &getFeature(const std::string &name);
   /*! @} */
@@ -110,6 +113,8 @@ class SOT_CORE_EXPORT PoolStorage {
    */
   /*! \brief Registering a task. */
   void registerTask(const std::string &entname, TaskAbstract *ent);
+  /*! \brief Forget a task, if it is the one registered under this name. */
+  void deregisterTask(const std::string &entname, TaskAbstract *ent);
   /*! \brief Get a reference to a task. */
   TaskAbstract &getTask(const std::string &name);
   /*! @} */
diff --git a/include/sot/core/task-abstract.hh b/include/sot/core/task-abstract.hh
index 99000b0..718709e 100644
--- a/include/sot/core/task-abstract.hh
+++ b/include/sot/core/task-abstract.hh
@@ -76,6 +76,7 @@ class SOT_CORE_EXPORT TaskAbstract : public dynamicgraph::Entity {
 
  public:
   TaskAbstract(const std::string &n);
+  virtual ~TaskAbstract(void);
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<VectorMultiBound, int> taskSOUT;
diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index c77cd8c..61721de 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -52,6 +52,12 @@ void PoolStorage::registerTask(const std::string &entname, TaskAbstract *ent) {
   }
 }
 
+void PoolStorage::deregisterTask(const std::string &entname,
+                                 TaskAbstract *ent) {
+  Tasks::iterator entkey = task.find(entname);
+  if (entkey != task.end() && entkey->second == ent) task.erase(entkey);
+}
+
 TaskAbstract &PoolStorage::getTask(const std::string &name) {
   Tasks::iterator entPtr = task.find(name);
   if (entPtr == task.end()) {
@@ -79,6 +85,12 @@ void PoolStorage::registerFeature(const std::string &entname,
   }
 }
 
+void PoolStorage::deregisterFeature(const std::string &entname,
+                                    FeatureAbstract *ent) {
+  Features::iterator entkey = feature.find(entname);
+  if (entkey != feature.end() && entkey->second == ent) feature.erase(entkey);
+}
+
 FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
   Features::iterator entPtr = feature.find(name);
   if (entPtr == feature.end()) {
diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 18e8a76..36db82b 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -49,6 +49,10 @@ FeatureAbstract::FeatureAbstract(const std::string &name)
   initCommands();
 }
 
+FeatureAbstract::~FeatureAbstract(void) {
+  PoolStorage::getInstance()->deregisterFeature(name, this);
+}
+
 void FeatureAbstract::initCommands(void) {
   using namespace command;
   addCommand("setReference",
diff --git a/src/task/task-abstract.cpp b/src/task/task-abstract.cpp
index 7070b93..ea8a874 100644
--- a/src/task/task-abstract.cpp
+++ b/src/task/task-abstract.cpp
@@ -31,6 +31,10 @@ TaskAbstract::TaskAbstract(const std::string &n)
   signalRegistration(taskSOUT << jacobianSOUT);
 }
 
+TaskAbstract::~TaskAbstract(void) {
+  PoolStorage::getInstance()->deregisterTask(name, this);
+}
+
 void TaskAbstract::taskRegistration(void) {
   PoolStorage::getInstance()->registerTask(name, this);
 }
-- 
2.43.0


From 7e9448a29e9ab005a5cda772c2230871dedc919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 077/145] fix: the graph written by the pool is well formed

---
 src/factory/pool.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index 61721de..6b8194c 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -102,14 +102,12 @@ FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
 }
 
 void PoolStorage::writeGraph(const std::string &aFileName) {
-  size_t IdxPointFound = aFileName.rfind(".");
-  std::string tmp1 = aFileName.substr(0, IdxPointFound);
-  size_t IdxSeparatorFound = aFileName.rfind("/");
-  std::string GenericName;
+  /* Name of the file, without its directory nor its extension. */
+  std::string GenericName = aFileName;
+  size_t IdxSeparatorFound = GenericName.rfind("/");
   if (IdxSeparatorFound != std::string::npos)
-    GenericName = tmp1.substr(IdxSeparatorFound, tmp1.length());
-  else
-    GenericName = tmp1;
+    GenericName = GenericName.substr(IdxSeparatorFound + 1);
+  GenericName = GenericName.substr(0, GenericName.rfind("."));
 
   /* Reading local time */
   time_t ltime;
@@ -131,7 +129,7 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
             << " Time: " << ltimeformatted.tm_hour << ":"
             << ltimeformatted.tm_min;
   GraphFile << " */" << std::endl;
-  GraphFile << "digraph " << GenericName << " { ";
+  GraphFile << "digraph \"" << GenericName << "\" { ";
   GraphFile << "\t graph [ label=\"" << GenericName
             << "\" bgcolor = white rankdir=LR ]" << std::endl
             << "\t node [ fontcolor = black, color = black, "
@@ -142,14 +140,14 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
 
   for (Tasks::iterator iter = task.begin(); iter != task.end(); iter++) {
     TaskAbstract *ent = iter->second;
-    GraphFile << "\t\t" << ent->getName() << " [ label = \"" << ent->getName()
-              << "\" ," << std::endl
+    GraphFile << "\t\t\"" << ent->getName() << "\" [ label = \""
+              << ent->getName() << "\" ," << std::endl
               << "\t\t   fontcolor = black, color = black, "
                  "fillcolor = magenta, style=filled, shape=box ]"
               << std::endl;
   }
 
-  GraphFile << "}" << std::endl;
+  GraphFile << "}" << std::endl << "}" << std::endl;
 
   GraphFile.close();
 }
-- 
2.43.0


From c5f1c1ae02df9e4902b02095978658af1cc363dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:42 +0000
Subject: [PATCH 078/145] fix: the number of joints and the force sensors of a
 robot are initialised

---
 include/sot/core/robot-utils.hh | 7 +++++++
 src/tools/robot-utils.cpp       | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/robot-utils.hh b/include/sot/core/robot-utils.hh
index fa256e7..9da0f3b 100644
--- a/include/sot/core/robot-utils.hh
+++ b/include/sot/core/robot-utils.hh
@@ -76,6 +76,13 @@ struct SOT_CORE_EXPORT ForceUtil {
   Index m_Force_Id_Left_Hand, m_Force_Id_Right_Hand, m_Force_Id_Left_Foot,
       m_Force_Id_Right_Foot;
 
+  /// No force sensor is known yet.
+  ForceUtil()
+      : m_Force_Id_Left_Hand(-1),
+        m_Force_Id_Right_Hand(-1),
+        m_Force_Id_Left_Foot(-1),
+        m_Force_Id_Right_Foot(-1) {}
+
   void set_name_to_force_id(const std::string &name, const Index &force_id);
 
   void set_force_id_to_limits(const Index &force_id,
diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index f628855..09033e9 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -226,7 +226,7 @@ void ForceUtil::display(std::ostream &os) const {
 }
 
 /**************** FromURDFToSot *************************/
-RobotUtil::RobotUtil() {}
+RobotUtil::RobotUtil() : m_nbJoints(0) {}
 
 void RobotUtil::set_joint_limits_for_id(const Index &idx, const double &lq,
                                         const double &uq) {
-- 
2.43.0


From c7779963c4ed4588180ccb73a2d4feb2ae830cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:42 +0000
Subject: [PATCH 079/145] fix: identifiers of joints and force sensors forget
 the names which left them

---
 src/tools/robot-utils.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 09033e9..28cb6ea 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -134,6 +134,7 @@ void ForceUtil::set_name_to_force_id(const std::string &name,
                                      const Index &force_id) {
   m_name_to_force_id[name] = (Index)force_id;
   create_force_id_to_name_map();
+  m_force_id_to_name[(Index)force_id] = name;
   if (name == "rf")
     set_force_id_right_foot(m_name_to_force_id[name]);
   else if (name == "lf")
@@ -172,10 +173,28 @@ std::string ForceUtil::cp_get_name_from_id(Index idx) {
   const std::string &default_rtn = get_name_from_id(idx);
   return default_rtn;
 }
-void ForceUtil::create_force_id_to_name_map() {
+
+/// Make id_to_name the inverse of name_to_id: the names which have left their
+/// identifier are dropped, an identifier keeps its name as long as possible.
+static void update_id_to_name_map(
+    const std::map<std::string, Index> &name_to_id,
+    std::map<Index, std::string> &id_to_name) {
+  std::map<Index, std::string>::iterator cur = id_to_name.begin();
+  while (cur != id_to_name.end()) {
+    std::map<std::string, Index>::const_iterator it =
+        name_to_id.find(cur->second);
+    if (it == name_to_id.end() || it->second != cur->first)
+      id_to_name.erase(cur++);
+    else
+      ++cur;
+  }
   std::map<std::string, Index>::const_iterator it;
-  for (it = m_name_to_force_id.begin(); it != m_name_to_force_id.end(); it++)
-    m_force_id_to_name[it->second] = it->first;
+  for (it = name_to_id.begin(); it != name_to_id.end(); it++)
+    id_to_name.insert(std::make_pair(it->second, it->first));
+}
+
+void ForceUtil::create_force_id_to_name_map() {
+  update_id_to_name_map(m_name_to_force_id, m_force_id_to_name);
 }
 
 const ForceLimits &ForceUtil::get_limits_from_id(Index force_id) {
@@ -247,12 +266,11 @@ void RobotUtil::set_name_to_id(const std::string &jointName,
                                const Index &jointId) {
   m_name_to_id[jointName] = (Index)jointId;
   create_id_to_name_map();
+  m_id_to_name[(Index)jointId] = jointName;
 }
 
 void RobotUtil::create_id_to_name_map() {
-  std::map<std::string, Index>::const_iterator it;
-  for (it = m_name_to_id.begin(); it != m_name_to_id.end(); it++)
-    m_id_to_name[it->second] = it->first;
+  update_id_to_name_map(m_name_to_id, m_id_to_name);
 }
 
 const Index &RobotUtil::get_id_from_name(const std::string &name) {
-- 
2.43.0


From 3d5681a35f4e9284b201170aae203f072aa040bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:42 +0000
Subject: [PATCH 080/145] fix: joint maps and conversions of the wrong size are
 refused

---
 include/sot/core/robot-utils.hh |  6 ++
 src/tools/robot-utils.cpp       | 99 ++++++++++++++++++++-------------
 2 files changed, 65 insertions(+), 40 deletions(-)

diff --git a/include/sot/core/robot-utils.hh b/include/sot/core/robot-utils.hh
index 9da0f3b..a40c9fa 100644
--- a/include/sot/core/robot-utils.hh
+++ b/include/sot/core/robot-utils.hh
@@ -293,6 +293,12 @@ struct SOT_CORE_EXPORT RobotUtil {
   boost::property_tree::ptree &get_property_tree();
 
  protected:
+  /** \brief Check that a conversion is possible: the joints are mapped, and the
+      input and the output have one value per joint and some extra ones. */
+  bool checkConversion(const std::string &name, const Index &sizeIn,
+                       const Index &extraIn, const Index &sizeOut,
+                       const Index &extraOut);
+
   Logger logger_;
 
   /** \brief Map of the parameters: map of strings. */
diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 28cb6ea..aa2af23 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -25,6 +25,7 @@
 
 #include <dynamic-graph/factory.h>
 
+#include <cmath>
 #include <iostream>
 #include <sot/core/debug.hh>
 #include <sot/core/robot-utils.hh>
@@ -285,33 +286,60 @@ const std::string &RobotUtil::get_name_from_id(Index id) {
   return iter->second;
 }
 
-void RobotUtil::set_urdf_to_sot(const std::vector<Index> &urdf_to_sot) {
-  m_nbJoints = urdf_to_sot.size();
-  m_urdf_to_sot.resize(urdf_to_sot.size());
-  m_dgv_urdf_to_sot.resize(urdf_to_sot.size());
-  for (std::size_t idx = 0; idx < urdf_to_sot.size(); idx++) {
-    m_urdf_to_sot[(Index)idx] = urdf_to_sot[(Index)idx];
-    m_dgv_urdf_to_sot[(Index)idx] =
-        static_cast<double>(urdf_to_sot[(Index)idx]);
+/// Whether each index below the size appears exactly once.
+static bool is_permutation(const dg::Vector &indexes) {
+  std::vector<bool> seen(indexes.size(), false);
+  for (Index i = 0; i < indexes.size(); i++) {
+    const double index = indexes[i];
+    if (!(index >= 0 && index < static_cast<double>(indexes.size())) ||
+        index != std::floor(index) || seen[(std::size_t)index])
+      return false;
+    seen[(std::size_t)index] = true;
   }
+  return true;
+}
+
+void RobotUtil::set_urdf_to_sot(const std::vector<Index> &urdf_to_sot) {
+  dg::Vector indexes(urdf_to_sot.size());
+  for (std::size_t idx = 0; idx < urdf_to_sot.size(); idx++)
+    indexes[(Index)idx] = static_cast<double>(urdf_to_sot[idx]);
+  set_urdf_to_sot(indexes);
 }
 
 void RobotUtil::set_urdf_to_sot(const dg::Vector &urdf_to_sot) {
-  m_nbJoints = urdf_to_sot.size();
-  m_urdf_to_sot.resize(urdf_to_sot.size());
-  for (unsigned int idx = 0; idx < urdf_to_sot.size(); idx++) {
-    m_urdf_to_sot[idx] = (unsigned int)urdf_to_sot[idx];
+  if (!is_permutation(urdf_to_sot)) {
+    SEND_MSG("The map from urdf to sot is not a permutation of the joints",
+             MSG_TYPE_ERROR);
+    return;
   }
+  std::vector<Index> map(urdf_to_sot.size());
+  for (Index idx = 0; idx < urdf_to_sot.size(); idx++)
+    map[idx] = static_cast<Index>(urdf_to_sot[idx]);
   m_dgv_urdf_to_sot = urdf_to_sot;
+  m_urdf_to_sot.swap(map);
+  m_nbJoints = m_urdf_to_sot.size();
 }
 
-bool RobotUtil::joints_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
+bool RobotUtil::checkConversion(const std::string &name, const Index &sizeIn,
+                                const Index &extraIn, const Index &sizeOut,
+                                const Index &extraOut) {
   if (m_nbJoints == 0) {
-    SEND_MSG("set_urdf_to_sot should be called", MSG_TYPE_ERROR);
+    SEND_MSG(name + ": set_urdf_to_sot should be called", MSG_TYPE_ERROR);
     return false;
   }
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
-  assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
+  const Index nbJoints = static_cast<Index>(m_nbJoints);
+  if (sizeIn != nbJoints + extraIn || sizeOut != nbJoints + extraOut) {
+    SEND_MSG(name + ": the vectors do not fit the number of joints",
+             MSG_TYPE_ERROR);
+    return false;
+  }
+  return true;
+}
+
+bool RobotUtil::joints_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
+  if (!checkConversion("joints_urdf_to_sot", q_urdf.size(), 0, q_sot.size(),
+                       0))
+    return false;
 
   for (unsigned int idx = 0; idx < m_nbJoints; idx++)
     q_sot[m_urdf_to_sot[idx]] = q_urdf[idx];
@@ -319,13 +347,9 @@ bool RobotUtil::joints_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
 }
 
 bool RobotUtil::joints_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
-  assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
-
-  if (m_nbJoints == 0) {
-    SEND_MSG("set_urdf_to_sot should be called", MSG_TYPE_ERROR);
+  if (!checkConversion("joints_sot_to_urdf", q_sot.size(), 0, q_urdf.size(),
+                       0))
     return false;
-  }
 
   for (unsigned int idx = 0; idx < m_nbJoints; idx++)
     q_urdf[idx] = q_sot[m_urdf_to_sot[idx]];
@@ -334,14 +358,11 @@ bool RobotUtil::joints_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
 
 bool RobotUtil::velocity_urdf_to_sot(ConstRefVector q_urdf,
                                      ConstRefVector v_urdf, RefVector v_sot) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
-  assert(v_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-  assert(v_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-
-  if (m_nbJoints == 0) {
-    SEND_MSG("velocity_urdf_to_sot should be called", MSG_TYPE_ERROR);
+  if (!checkConversion("velocity_urdf_to_sot", q_urdf.size(), 7, v_urdf.size(),
+                       6) ||
+      !checkConversion("velocity_urdf_to_sot", v_urdf.size(), 6, v_sot.size(),
+                       6))
     return false;
-  }
   const Eigen::Quaterniond q(q_urdf(6), q_urdf(3), q_urdf(4), q_urdf(5));
   Eigen::Matrix3d oRb = q.toRotationMatrix();
   v_sot.head<3>() = oRb * v_urdf.head<3>();
@@ -353,14 +374,11 @@ bool RobotUtil::velocity_urdf_to_sot(ConstRefVector q_urdf,
 
 bool RobotUtil::velocity_sot_to_urdf(ConstRefVector q_urdf,
                                      ConstRefVector v_sot, RefVector v_urdf) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
-  assert(v_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-  assert(v_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-
-  if (m_nbJoints == 0) {
-    SEND_MSG("velocity_sot_to_urdf should be called", MSG_TYPE_ERROR);
+  if (!checkConversion("velocity_sot_to_urdf", q_urdf.size(), 7, v_sot.size(),
+                       6) ||
+      !checkConversion("velocity_sot_to_urdf", v_sot.size(), 6, v_urdf.size(),
+                       6))
     return false;
-  }
   // compute rotation from world to base frame
   const Eigen::Quaterniond q(q_urdf(6), q_urdf(3), q_urdf(4), q_urdf(5));
   Eigen::Matrix3d oRb = q.toRotationMatrix();
@@ -408,8 +426,8 @@ bool RobotUtil::base_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
 }
 
 bool RobotUtil::config_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
-  assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
+  if (!checkConversion("config_urdf_to_sot", q_urdf.size(), 7, q_sot.size(), 6))
+    return false;
 
   base_urdf_to_sot(q_urdf.head<7>(), q_sot.head<6>());
   joints_urdf_to_sot(q_urdf.tail(m_nbJoints), q_sot.tail(m_nbJoints));
@@ -418,8 +436,9 @@ bool RobotUtil::config_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
 }
 
 bool RobotUtil::config_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
-  assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
+  if (!checkConversion("config_sot_to_urdf", q_sot.size(), 6, q_urdf.size(), 7))
+    return false;
+
   base_sot_to_urdf(q_sot.head<6>(), q_urdf.head<7>());
   joints_sot_to_urdf(q_sot.tail(m_nbJoints), q_urdf.tail(m_nbJoints));
   return true;
-- 
2.43.0


From 6f96039a774d9e5a7f341d1c96c17f725578b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 081/145] fix: a joint value that is not a number is not in its
 range

---
 src/tools/parameter-server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index face65a..b1b789c 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -401,14 +401,14 @@ bool ParameterServer::isJointInRange(unsigned int id, double q) {
   const JointLimits &JL = m_robot_util->get_joint_limits_from_id((Index)id);
 
   double jl = JL.lower;
-  if (q < jl) {
+  if (!(q >= jl)) {
     SEND_MSG("Desired joint angle " + toString(q) +
                  " is smaller than lower limit: " + toString(jl),
              MSG_TYPE_ERROR);
     return false;
   }
   double ju = JL.upper;
-  if (q > ju) {
+  if (!(q <= ju)) {
     SEND_MSG("Desired joint angle " + toString(q) +
                  " is larger than upper limit: " + toString(ju),
              MSG_TYPE_ERROR);
-- 
2.43.0


From 3502bbd5a32c6f8292019753590e2efbdcd22ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 082/145] fix: displaying the robot before the initialisation
 is refused

---
 src/tools/parameter-server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index b1b789c..39b3ba8 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -375,7 +375,13 @@ void ParameterServer::setImuJointName(const std::string &JointName) {
   m_robot_util->m_imu_joint_name = JointName;
 }
 
-void ParameterServer::displayRobotUtil() { m_robot_util->display(std::cout); }
+void ParameterServer::displayRobotUtil() {
+  if (!m_initSucceeded) {
+    SEND_WARNING_STREAM_MSG("Cannot display the robot before initialization!");
+    return;
+  }
+  m_robot_util->display(std::cout);
+}
 
 /* --- PROTECTED MEMBER METHODS
  * ---------------------------------------------------------- */
-- 
2.43.0


From 2e495fa8672dabdb198f6b9e2d0918be72d66256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 083/145] fix: a refused init_simple leaves the parameter
 server as it was, and it can be repeated

---
 include/sot/core/parameter-server.hh |  2 ++
 src/tools/parameter-server.cpp       | 33 ++++++++++++++++++----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/sot/core/parameter-server.hh b/include/sot/core/parameter-server.hh
index 004cd93..7abeea9 100644
--- a/include/sot/core/parameter-server.hh
+++ b/include/sot/core/parameter-server.hh
@@ -129,6 +129,7 @@ class SOTParameterServer_EXPORT ParameterServer
   /// @}
   /// Set the mapping between urdf and sot.
   void setJoints(const dynamicgraph::Vector &);
+  dynamicgraph::Vector getJointsUrdfToSot();
 
   /* --- ENTITY INHERITANCE --- */
   virtual void display(std::ostream &os) const;
@@ -137,6 +138,7 @@ class SOTParameterServer_EXPORT ParameterServer
   RobotUtilShrPtr m_robot_util;
   bool
       m_initSucceeded;  /// true if the entity has been successfully initialized
+  bool m_initSimpleDone;  /// true once init_simple has succeeded
   double m_dt;          /// control loop time period
   bool m_emergency_stop_triggered;  /// true if an emergency condition as been
                                     /// triggered either by an other entity, or
diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index 39b3ba8..3afc062 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -56,6 +56,7 @@ ParameterServer::ParameterServer(const std::string &name)
     : Entity(name),
       m_robot_util(RefVoidRobotUtil()),
       m_initSucceeded(false),
+      m_initSimpleDone(false),
       m_emergency_stop_triggered(false),
       m_is_first_iter(true),
       m_iter(0),
@@ -205,12 +206,8 @@ ParameterServer::ParameterServer(const std::string &name)
 }
 
 void ParameterServer::init_simple(const double &dt) {
-  if (dt <= 0.0) return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
-
-  m_dt = dt;
-
-  m_emergency_stop_triggered = false;
-  m_initSucceeded = true;
+  if (!(dt > 0.0))
+    return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
 
   std::string localName("robot");
   std::shared_ptr<std::vector<std::string> > listOfRobots =
@@ -232,16 +229,24 @@ void ParameterServer::init_simple(const double &dt) {
     m_robot_util = getRobotUtil(localName);
   }
 
-  addCommand(
-      "getJointsUrdfToSot",
-      makeDirectGetter(*this, &m_robot_util->m_dgv_urdf_to_sot,
-                       docDirectSetter("Display map Joints From URDF to SoT.",
-                                       "Vector of integer for mapping")));
+  m_dt = dt;
+  m_emergency_stop_triggered = false;
+
+  // The command reads the robot of this entity: it is added only once.
+  if (!m_initSimpleDone)
+    addCommand("getJointsUrdfToSot",
+               makeCommandReturnType0(
+                   *this, &ParameterServer::getJointsUrdfToSot,
+                   docDirectGetter("Display map Joints From URDF to SoT.",
+                                   "Vector of integer for mapping")));
+  m_initSimpleDone = true;
+  m_initSucceeded = true;
 }
 
 void ParameterServer::init(const double &dt, const std::string &urdfFile,
                            const std::string &robotRef) {
-  if (dt <= 0.0) return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
+  if (!(dt > 0.0))
+    return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
   m_dt = dt;
   m_emergency_stop_triggered = false;
   m_initSucceeded = true;
@@ -316,6 +321,10 @@ void ParameterServer::setJoints(const dynamicgraph::Vector &urdf_to_sot) {
   m_robot_util->set_urdf_to_sot(urdf_to_sot);
 }
 
+dynamicgraph::Vector ParameterServer::getJointsUrdfToSot() {
+  return m_robot_util->m_dgv_urdf_to_sot;
+}
+
 void ParameterServer::setRightFootSoleXYZ(const dynamicgraph::Vector &xyz) {
   if (!m_initSucceeded) {
     SEND_WARNING_STREAM_MSG(
-- 
2.43.0


From 50fafe81f5b773395be0eba15cc7d033ca076e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:22 +0000
Subject: [PATCH 084/145] fix: GripperControl slows each joint by its own
 factor

---
 src/tools/gripper-control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 29fb5fb..4afe5eb 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -148,7 +148,7 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
 
   // multiply the velocity elmt per elmt
   dynamicgraph::Vector weightedVel(SIZE);
-  weightedVel = velocity * factor;
+  weightedVel = velocity.cwiseProduct(factor);
   sotDEBUG(25) << " weightedVel " << weightedVel << std::endl;
 
   // integrate the desired velocity
-- 
2.43.0


From f36bd82cb7b4293920125f3eb4db95f6bfabceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:22 +0000
Subject: [PATCH 085/145] fix: the reduction factor of GripperControl stays
 above zero

---
 src/tools/gripper-control.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 4afe5eb..b3c9854 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -12,6 +12,7 @@
 #include <dynamic-graph/all-commands.h>
 #include <dynamic-graph/real-time-logger.h>
 
+#include <limits>
 #include <sot/core/debug.hh>
 #include <sot/core/factory.hh>
 #include <sot/core/gripper-control.hh>
@@ -125,7 +126,8 @@ void GripperControl::computeIncrement(
     }
 
     // ensure factor is in )0,1(
-    factor(i) = std::min(1., std::max(factor(i), 0.));
+    factor(i) = std::min(
+        1., std::max(factor(i), std::numeric_limits<double>::min()));
   }
 }
 
-- 
2.43.0


From 713a34049be90e7b8bfde6f3885d5125750070c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:22 +0000
Subject: [PATCH 086/145] fix: GripperControl refuses torques, limits and
 references of another size

---
 src/tools/gripper-control.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index b3c9854..ae9291d 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -111,6 +111,10 @@ void GripperControl::computeIncrement(
     dgRTLOG() << "torque is not provided " << std::endl;
     return;
   }
+  if (torques.size() < SIZE || torqueLimits.size() < SIZE)
+    throw std::length_error(
+        "GripperControl: the torques and their limits should have the size of "
+        "the positions");
 
   for (int i = 0; i < SIZE; ++i) {
     // apply a reduction factor if the torque limits are exceeded
@@ -137,8 +141,10 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
     const dynamicgraph::Vector &torqueLimits,
     dynamicgraph::Vector &referencePos) {
   const dynamicgraph::Vector::Index SIZE = currentPos.size();
-  //  if( (SIZE==torques.size()) )
-  //    { /* ERROR ... */ }
+  if (desiredPos.size() != SIZE)
+    throw std::length_error(
+        "GripperControl: the desired positions should have the size of the "
+        "positions");
 
   // compute the desired velocity
   dynamicgraph::Vector velocity = (desiredPos - currentPos) * (1. / DT);
-- 
2.43.0


From ecc9d961e40399f0bba48ff80fa8432008d0832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:23 +0000
Subject: [PATCH 087/145] fix: JointLimitator refuses joints without limits

---
 src/tools/joint-limitator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tools/joint-limitator.cpp b/src/tools/joint-limitator.cpp
index 3a0474b..1f7e6cd 100644
--- a/src/tools/joint-limitator.cpp
+++ b/src/tools/joint-limitator.cpp
@@ -44,6 +44,9 @@ dynamicgraph::Vector &JointLimitator::computeWidthJl(dynamicgraph::Vector &res,
   const dynamicgraph::Vector UJL = upperJlSIN.access(time);
   const dynamicgraph::Vector LJL = lowerJlSIN.access(time);
   const dynamicgraph::Vector::Index SIZE = UJL.size();
+  if (LJL.size() < SIZE)
+    throw std::length_error(
+        "JointLimitator: a joint has no lower limit");
   res.resize(SIZE);
 
   for (unsigned int i = 0; i < SIZE; ++i) {
@@ -68,7 +71,12 @@ dynamicgraph::Vector &JointLimitator::computeControl(dynamicgraph::Vector &uOUT,
   uOUT.setZero();
 
   dynamicgraph::Vector::Index offset = q.size() - uIN.size();
-  assert(offset >= 0);
+  if (offset < 0)
+    throw std::length_error(
+        "JointLimitator: the control is longer than the joint positions");
+  if (UJL.size() < q.size() || LJL.size() < q.size())
+    throw std::length_error(
+        "JointLimitator: a joint has no limits");
 
   for (unsigned int i = 0; i < controlSize; ++i) {
     double qnext = q(i + offset) + uIN(i) * 0.005;
-- 
2.43.0


From 286d51af5c3cdc6b18f8f2e8b1b7d55b986f54a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:23 +0000
Subject: [PATCH 088/145] fix: NeckLimitation refuses joint positions without a
 neck

---
 src/tools/neck-limitation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/neck-limitation.cpp b/src/tools/neck-limitation.cpp
index a0f43a3..a30d914 100644
--- a/src/tools/neck-limitation.cpp
+++ b/src/tools/neck-limitation.cpp
@@ -63,6 +63,8 @@ dynamicgraph::Vector &NeckLimitation::computeJointLimitation(
   sotDEBUGIN(15);
 
   const dynamicgraph::Vector &joint = jointSIN(timeSpec);
+  if (joint.size() <= std::max(panRank, tiltRank))
+    throw std::length_error("NeckLimitation: no neck in the joint positions");
   jointLimited = joint;
 
   const double &pan = joint(panRank);
-- 
2.43.0


From 1ebe56c41fede38e6e14ec5f56d54017ae03c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:23 +0000
Subject: [PATCH 089/145] fix: SmoothReach has no motion before its goal is set

---
 src/tools/smooth-reach.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index 87acebe..048a92d 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -27,7 +27,7 @@ SmoothReach::SmoothReach(const std::string &name)
       startTime(-1),
       lengthTime(-1),
       isStarted(false),
-      isParam(true)
+      isParam(false)
 
       ,
       smoothMode(2),
-- 
2.43.0


From 420f1a7820df2cefbec8b15eda3b3c8016215e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 090/145] fix: SmoothReach refuses a goal of another size than
 its start

---
 src/tools/smooth-reach.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index 048a92d..d054754 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -84,10 +84,13 @@ void SmoothReach::setSmoothing(const int &mode, const double &param) {
 dynamicgraph::Vector &SmoothReach::goalSOUT_function(dynamicgraph::Vector &res,
                                                      const int &time) {
   if (isParam) {
-    start = startSIN(time);
+    const dynamicgraph::Vector &from = startSIN(time);
+    if (from.size() != goal.size())
+      throw std::length_error(
+          "SmoothReach: the start and the goal should have the same size");
+    start = from;
     startTime = time;
 
-    assert(start.size() == goal.size());
     isParam = false;
     isStarted = true;
   }
-- 
2.43.0


From 68db169b0584b7ce872a83b2fb93ae04bb4fa3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 091/145] fix: a motion of SmoothReach without a duration is
 over at once

---
 src/tools/smooth-reach.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index d054754..da81333 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -96,7 +96,8 @@ dynamicgraph::Vector &SmoothReach::goalSOUT_function(dynamicgraph::Vector &res,
   }
 
   if (isStarted) {
-    double x = double(time - startTime) / lengthTime;
+    // a motion without a duration is over at once
+    double x = (lengthTime > 0) ? double(time - startTime) / lengthTime : 1.;
     if (x > 1) x = 1;
     double x1 = smoothFunction(x);
     double x0 = 1 - x1;
-- 
2.43.0


From 295da6cfb9c8dab6231c0db567408e9969f6a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 092/145] fix: SmoothReach refuses unknown modes and a beta
 that is not positive

---
 src/tools/smooth-reach.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index da81333..7d119c6 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -77,6 +77,10 @@ double SmoothReach::smoothFunction(double x) {
 }
 
 void SmoothReach::setSmoothing(const int &mode, const double &param) {
+  if (mode < 0 || mode > 2)
+    throw std::invalid_argument("SmoothReach: the mode should be 0, 1 or 2");
+  if (mode != 0 && !(param > 0))
+    throw std::invalid_argument("SmoothReach: beta should be positive");
   smoothMode = mode;
   smoothParam = param;
 }
-- 
2.43.0


From 7dd559d245edbc5b1455bc64826d542f89aa7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 093/145] fix: CoMFreezer follows the reference for a while
 after the walk stops

---
 src/tools/com-freezer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/com-freezer.cpp b/src/tools/com-freezer.cpp
index 700e344..87d9972 100644
--- a/src/tools/com-freezer.cpp
+++ b/src/tools/com-freezer.cpp
@@ -51,13 +51,13 @@ dynamicgraph::Vector &CoMFreezer::computeFreezedCoM(
   if (PGInProcess) /* CoM unfreezed */
   {
     m_lastCoM = CoMRefSIN(time);
-    m_previousPGInProcess = (PGInProcess == 0);
+    m_previousPGInProcess = (PGInProcess != 0);
   } else {
     if (m_previousPGInProcess) /* pg.inprocess switch from 1 to 0 */
     {
       m_lastStopTime = time;
       m_lastCoM = CoMRefSIN(time);
-      m_previousPGInProcess = (PGInProcess == 0);
+      m_previousPGInProcess = (PGInProcess != 0);
     } else if (time < m_lastStopTime + 200) /* keep updating for 1s */
     {
       m_lastCoM = CoMRefSIN(time);
-- 
2.43.0


From cc09a58885f5b2b76f07424fe50197545fef7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 094/145] fix: GradientAscent refuses a gradient of another
 size

---
 src/tools/gradient-ascent.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/gradient-ascent.cpp b/src/tools/gradient-ascent.cpp
index b12b4c2..d8faa38 100644
--- a/src/tools/gradient-ascent.cpp
+++ b/src/tools/gradient-ascent.cpp
@@ -60,6 +60,8 @@ dynamicgraph::Vector &GradientAscent::update(dynamicgraph::Vector &res,
     value.setZero();
     res.resize(value.size());
   }
+  if (gradient.size() != value.size())
+    throw std::length_error("GradientAscent: the size of the gradient changed");
 
   value += learningRate * gradient;
   res = value;
-- 
2.43.0


From 1423db14a7eba32ec8125dcc4647810c31ccbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 095/145] fix: MotionPeriod keeps its phase before its initial
 period

---
 src/tools/motion-period.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/motion-period.cpp b/src/tools/motion-period.cpp
index 7c7bc05..32b42dd 100644
--- a/src/tools/motion-period.cpp
+++ b/src/tools/motion-period.cpp
@@ -50,7 +50,9 @@ dynamicgraph::Vector &MotionPeriod::computeMotion(dynamicgraph::Vector &res,
   res.resize(size);
   for (unsigned int i = 0; i < size; ++i) {
     const sotMotionParam &p = motionParams[i];
-    double x = ((((time - p.initPeriod) % p.period) + 0.0) / (p.period + 0.0));
+    // signed: the motion may start later
+    double x = (((time - int(p.initPeriod)) % int(p.period)) + 0.0) /
+               (p.period + 0.0);
     res(i) = p.initAmplitude;
     switch (p.motionType) {
       case MOTION_CONSTANT: {
-- 
2.43.0


From 0c44d5a0eeb91f128dc7879b5612dc57c65ecaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 096/145] fix: ClampWorkspace takes the complement of each ramp

---
 src/tools/clamp-workspace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/clamp-workspace.cpp b/src/tools/clamp-workspace.cpp
index 02c73d2..6a3a5a9 100644
--- a/src/tools/clamp-workspace.cpp
+++ b/src/tools/clamp-workspace.cpp
@@ -113,7 +113,7 @@ void ClampWorkspace::update(int time) {
       case 2:
       default:
         alpha(i, i) = 0.5 * (1 + tanh(1 / Y - 1 / (1 - Y)));
-        alphabar(i, i) = 1 - alpha(i);
+        alphabar(i, i) = 1 - alpha(i, i);
     }
 
     if (i == 2) {
@@ -126,7 +126,7 @@ void ClampWorkspace::update(int time) {
       }
       if (mode == 2) {
         alpha(i + 3, i + 3) = 0.5 * (1 + tanh(1 / Y - 1 / (1 - Y)));
-        alphabar(i + 3, i + 3) = 1 - alpha(i + 3);
+        alphabar(i + 3, i + 3) = 1 - alpha(i + 3, i + 3);
       }
     }
   }
-- 
2.43.0


From 317dfd4db34bdbd61b69cd134bd9cae0de916325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 097/145] fix: MadgwickAHRS refuses NaN settings, short
 measurements and quaternions

---
 src/filters/madgwickahrs.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/filters/madgwickahrs.cpp b/src/filters/madgwickahrs.cpp
index baabe9c..f789bf2 100644
--- a/src/filters/madgwickahrs.cpp
+++ b/src/filters/madgwickahrs.cpp
@@ -16,6 +16,7 @@
 #include <sot/core/debug.hh>
 #include <sot/core/madgwickahrs.hh>
 #include <sot/core/stop-watch.hh>
+#include <stdexcept>
 
 namespace dynamicgraph {
 namespace sot {
@@ -75,19 +76,20 @@ MadgwickAHRS::MadgwickAHRS(const std::string &name)
 }
 
 void MadgwickAHRS::init(const double &dt) {
-  if (dt <= 0.0) return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
+  if (!(dt > 0.0)) return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
   m_sampleFreq = 1.0 / dt;
   m_initSucceeded = true;
 }
 
 void MadgwickAHRS::set_beta(const double &beta) {
-  if (beta < 0.0 || beta > 1.0)
+  if (!(beta >= 0.0 && beta <= 1.0))
     return SEND_MSG("Beta must be in [0,1]", MSG_TYPE_ERROR);
   m_beta = beta;
 }
 
 void MadgwickAHRS::set_imu_quat(const dynamicgraph::Vector &imu_quat) {
-  assert(imu_quat.size() == 4);
+  if (imu_quat.size() != 4)
+    return SEND_MSG("The quaternion must have 4 values", MSG_TYPE_ERROR);
   m_q0 = imu_quat[0];
   m_q1 = imu_quat[1];
   m_q2 = imu_quat[2];
@@ -106,6 +108,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(imu_quat, dynamicgraph::Vector) {
   }
   const dynamicgraph::Vector &accelerometer = m_accelerometerSIN(iter);
   const dynamicgraph::Vector &gyroscope = m_gyroscopeSIN(iter);
+  if (accelerometer.size() < 3 || gyroscope.size() < 3)
+    throw std::invalid_argument("The measurements must have 3 values.");
 
   getProfiler().start(PROFILE_MADGWICKAHRS_COMPUTATION);
   {
-- 
2.43.0


From 4f9b29a085da037ca8519e8ff2cbd35a5dd6d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 098/145] fix: ExpMovingAvg checks the alpha it is given

---
 src/tools/exp-moving-avg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/exp-moving-avg.cpp b/src/tools/exp-moving-avg.cpp
index 1efca5c..dade43b 100644
--- a/src/tools/exp-moving-avg.cpp
+++ b/src/tools/exp-moving-avg.cpp
@@ -12,6 +12,7 @@
 #include <boost/function.hpp>
 #include <sot/core/exp-moving-avg.hh>
 #include <sot/core/factory.hh>
+#include <stdexcept>
 
 namespace dg = ::dynamicgraph;
 
@@ -59,7 +60,8 @@ ExpMovingAvg::~ExpMovingAvg() {}
 /* --- COMPUTE ----------------------------------------------------------- */
 
 void ExpMovingAvg::setAlpha(const double &alpha_) {
-  assert(alpha <= 1. && alpha >= 0.);
+  if (!(alpha_ <= 1. && alpha_ >= 0.))
+    throw std::invalid_argument("alpha should be in [0, 1].");
   alpha = alpha_;
 }
 
-- 
2.43.0


From fdb3687454a975867b71384e13a0b7a66813b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 099/145] fix: ExpMovingAvg refuses an input of another size

---
 src/tools/exp-moving-avg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/exp-moving-avg.cpp b/src/tools/exp-moving-avg.cpp
index dade43b..802e71b 100644
--- a/src/tools/exp-moving-avg.cpp
+++ b/src/tools/exp-moving-avg.cpp
@@ -75,6 +75,8 @@ dynamicgraph::Vector &ExpMovingAvg::update(dynamicgraph::Vector &res,
     average.setZero();
     res.resize(average.size());
   }
+  if (update.size() != average.size())
+    throw std::invalid_argument("The size of the input has changed.");
 
   res = average = alpha * average + (1. - alpha) * update;
   return res;
-- 
2.43.0


From 6a7ae0432e03f950046dd6ecf77f11db266e79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 100/145] fix: FilterDifferentiator releases the filter it
 replaces

---
 src/filters/filter-differentiator.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index 4769606..fb6ed8a 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -61,7 +61,10 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
       CONSTRUCT_SIGNAL_OUT(x_filtered, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(dx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(ddx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
-      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN) {
+      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN),
+      m_dt(0.),
+      m_x_size(0),
+      m_filter(NULL) {
   Entity::signalRegistration(ALL_INPUT_SIGNALS << ALL_OUTPUT_SIGNALS);
 
   /* Commands. */
@@ -92,10 +95,12 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
 void FilterDifferentiator::init(const double &timestep, const int &xSize,
                                 const Eigen::VectorXd &filter_numerator,
                                 const Eigen::VectorXd &filter_denominator) {
+  CausalFilter *filter =
+      new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
+  delete m_filter;
+  m_filter = filter;
   m_x_size = xSize;
   m_dt = timestep;
-  m_filter =
-      new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
 
   LOG("Filtering started with "
       << "Numerator " << filter_numerator << std::endl
-- 
2.43.0


From 442b9f01abe7309786de2f39420e990cd836fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 101/145] fix: FilterDifferentiator raises before init and on
 ill-sized inputs

---
 src/filters/filter-differentiator.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index fb6ed8a..5dc7f8b 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -31,6 +31,7 @@
 #include <sot/core/filter-differentiator.hh>
 //#include <sot/torque_control/motor-model.hh>
 #include <Eigen/Dense>
+#include <stdexcept>
 
 namespace dynamicgraph {
 namespace sot {
@@ -111,6 +112,8 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
 void FilterDifferentiator::switch_filter(
     const Eigen::VectorXd &filter_numerator,
     const Eigen::VectorXd &filter_denominator) {
+  if (m_filter == NULL)
+    throw std::runtime_error("The filter is not initialized.");
   LOG("Filter switched with "
       << "Numerator " << filter_numerator << std::endl
       << "Denominator" << filter_denominator << std::endl
@@ -124,10 +127,13 @@ void FilterDifferentiator::switch_filter(
 
 DEFINE_SIGNAL_INNER_FUNCTION(x_dx_ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_dx inner signal " << iter << std::endl;
+  if (m_filter == NULL)
+    throw std::runtime_error("The filter is not initialized.");
   if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   // read encoders
   const dynamicgraph::Vector &base_x = m_xSIN(iter);
-  assert(base_x.size() == m_x_size);
+  if (base_x.size() != m_x_size)
+    throw std::invalid_argument("Unexpected size of signal x.");
   m_filter->get_x_dx_ddx(base_x, s);
   return s;
 }
@@ -142,6 +148,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(x_filtered, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_filtered output signal " << iter << std::endl;
 
   const dynamicgraph::Vector &x_dx_ddx = m_x_dx_ddxSINNER(iter);
+  if (x_dx_ddx.size() != 3 * m_x_size)
+    throw std::runtime_error("The filter has no output at this time.");
   if (s.size() != m_x_size) s.resize(m_x_size);
   s = x_dx_ddx.head(m_x_size);
   return s;
@@ -151,6 +159,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(dx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute dx output signal " << iter << std::endl;
 
   const dynamicgraph::Vector &x_dx_ddx = m_x_dx_ddxSINNER(iter);
+  if (x_dx_ddx.size() != 3 * m_x_size)
+    throw std::runtime_error("The filter has no output at this time.");
   if (s.size() != m_x_size) s.resize(m_x_size);
   s = x_dx_ddx.segment(m_x_size, m_x_size);
   return s;
@@ -160,6 +170,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute ddx output signal " << iter << std::endl;
 
   const dynamicgraph::Vector &x_dx_ddx = m_x_dx_ddxSINNER(iter);
+  if (x_dx_ddx.size() != 3 * m_x_size)
+    throw std::runtime_error("The filter has no output at this time.");
   if (s.size() != m_x_size) s.resize(m_x_size);
   s = x_dx_ddx.tail(m_x_size);
   return s;
-- 
2.43.0


From 02309104e21607e0bd5fadd7882cfa56c5b8a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 102/145] fix: the variance of Kalman is updated at each time

---
 src/tools/kalman.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/kalman.cpp b/src/tools/kalman.cpp
index 84defc4..2338a3f 100644
--- a/src/tools/kalman.cpp
+++ b/src/tools/kalman.cpp
@@ -75,9 +75,8 @@ Matrix &Kalman::computeVarianceUpdate(Matrix &Pk_k, const int &time) {
   if (time == 0) {
     // First time return variance initial state
     Pk_k = stateVariance_;
-    // Set dependency to input signals for latter computations
-    varianceUpdateSOUT.addDependency(noiseTransitionSIN);
-    varianceUpdateSOUT.addDependency(modelTransitionSIN);
+    // No dependency is set: the variance is updated at each time, even though
+    // the input signals are constant.
   } else {
     const Matrix &Q = noiseTransitionSIN(time);
     const Matrix &R = noiseMeasureSIN(time);
-- 
2.43.0


From e9719720eebbb8b7d7ed9ff9d00c655110d629d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 103/145] fix: TaskPD depends on the derivative it uses

---
 src/task/task-pd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/task-pd.cpp b/src/task/task-pd.cpp
index 73d2aeb..c29f2a8 100644
--- a/src/task/task-pd.cpp
+++ b/src/task/task-pd.cpp
@@ -38,7 +38,7 @@ TaskPD::TaskPD(const std::string &n)
                    "sotTaskPD(" + n + ")::output(vector)::errorDotOUT"),
       errorDotSIN(NULL, "sotTaskPD(" + n + ")::input(vector)::errorDot") {
   taskSOUT.setFunction(boost::bind(&TaskPD::computeTaskModif, this, _1, _2));
-  taskSOUT.addDependency(errorDotSOUT);
+  taskSOUT.addDependency(errorDotSIN);
 
   signalRegistration(errorDotSOUT << errorDotSIN);
   initCommand();
-- 
2.43.0


From 42a098dd7b238bb18a658a69f03c0af1cde8f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 104/145] fix: TaskPD refuses a derivative that is too short

---
 src/task/task-pd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/task/task-pd.cpp b/src/task/task-pd.cpp
index c29f2a8..be48122 100644
--- a/src/task/task-pd.cpp
+++ b/src/task/task-pd.cpp
@@ -72,6 +72,9 @@ VectorMultiBound &TaskPD::computeTaskModif(VectorMultiBound &task, int time) {
 
   const dynamicgraph::Vector &errorDot = errorDotSIN(time);
   Task::computeTaskExponentialDecrease(task, time);
+  if (errorDot.size() < (dynamicgraph::Vector::Index)task.size())
+    throw ExceptionTask(ExceptionTask::NON_ADEQUATE_FEATURES,
+                        "The derivative of the error is too short.");
 
   sotDEBUG(25) << " Task = " << task;
   sotDEBUG(25) << " edot = " << errorDot;
-- 
2.43.0


From 3439c88d2c6cece06849b2d432be2e000b2da79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 105/145] fix: TaskConti falls back without ending the process

---
 src/task/task-conti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/task-conti.cpp b/src/task/task-conti.cpp
index 4129f95..538216c 100644
--- a/src/task/task-conti.cpp
+++ b/src/task/task-conti.cpp
@@ -51,7 +51,7 @@ VectorMultiBound &TaskConti::computeContiDesiredVelocity(
     dynamicgraph::Vector deref(J.rows());
     sotDEBUG(15) << "q0 = " << q0 << std::endl;
     sotDEBUG(25) << "J = " << J << std::endl;
-    if (q0.size() != (J.cols() - 6)) throw;  // TODO
+    if (q0.size() != (J.cols() - 6)) throw 1;  // TODO
     for (int i = 0; i < J.rows(); ++i) {
       deref(i) = 0;
       for (int j = 6; j < J.cols(); ++j) deref(i) += J(i, j) * q0(j - 6);
-- 
2.43.0


From 9062e4f7c0eb7ea420570f105f0bc4f559b99c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 106/145] fix: TaskUnilateral refuses missing references and
 time steps

---
 src/task/task-unilateral.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/task-unilateral.cpp b/src/task/task-unilateral.cpp
index e09db94..923962c 100644
--- a/src/task/task-unilateral.cpp
+++ b/src/task/task-unilateral.cpp
@@ -63,6 +63,12 @@ VectorMultiBound &TaskUnilateral::computeTaskUnilateral(VectorMultiBound &res,
   const dynamicgraph::Vector &refInf = referenceInfSIN(time);
   const dynamicgraph::Vector &refSup = referenceSupSIN(time);
   const double &dt = dtSIN(time);
+  if (refInf.size() < position.size() || refSup.size() < position.size())
+    throw ExceptionTask(ExceptionTask::NON_ADEQUATE_FEATURES,
+                        "A position has no reference.");
+  if (!(dt > 0))
+    throw ExceptionTask(ExceptionTask::NON_ADEQUATE_FEATURES,
+                        "The time step should be positive.");
   res.resize(position.size());
   for (unsigned int i = 0; i < res.size(); ++i) {
     MultiBound toto((refInf(i) - position(i)) / dt,
-- 
2.43.0


From 642015f6638423cc0b49702149b8d2b91ca5baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:02 +0000
Subject: [PATCH 107/145] fix: a gain has its error signal whichever
 constructor made it

---
 src/task/gain-adaptive.cpp   | 4 ++--
 src/task/gain-hyperbolic.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/task/gain-adaptive.cpp b/src/task/gain-adaptive.cpp
index 1acfce7..9b6af3a 100644
--- a/src/task/gain-adaptive.cpp
+++ b/src/task/gain-adaptive.cpp
@@ -88,7 +88,7 @@ GainAdaptive::GainAdaptive(const std::string &name)
 GainAdaptive::GainAdaptive(const std::string &name, const double &lambda)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
@@ -96,7 +96,7 @@ GainAdaptive::GainAdaptive(const std::string &name, const double &valueAt0,
                            const double &valueAtInfty, const double &tanAt0)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(valueAt0, valueAtInfty, tanAt0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
diff --git a/src/task/gain-hyperbolic.cpp b/src/task/gain-hyperbolic.cpp
index 2c8ec22..528ef88 100644
--- a/src/task/gain-hyperbolic.cpp
+++ b/src/task/gain-hyperbolic.cpp
@@ -48,7 +48,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name)
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &lambda)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
@@ -56,7 +56,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
                                const double &decal0)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(valueAt0, valueAtInfty, tanAt0, decal0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 void GainHyperbolic::init(const double &valueAt0, const double &valueAtInfty,
-- 
2.43.0


From 3b4e5c7790bb38cebd08c99ceb0365f0524eb15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:02 +0000
Subject: [PATCH 108/145] fix: GainAdaptive refuses passing points that give no
 gain

---
 src/task/gain-adaptive.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/task/gain-adaptive.cpp b/src/task/gain-adaptive.cpp
index 9b6af3a..6b12a7e 100644
--- a/src/task/gain-adaptive.cpp
+++ b/src/task/gain-adaptive.cpp
@@ -135,6 +135,9 @@ void GainAdaptive::initFromPassingPoint(const double &valueAt0,
                                         const double &xref,
                                         const double &p)  // gref )
 {
+  if (!(xref > 0) || !(p > 0 && p <= 1))
+    throw std::invalid_argument(
+        "The reference point should be positive, the percentage in ]0, 1].");
   coeff_c = valueAtInfty;
   coeff_a = valueAt0 - valueAtInfty;
   if (0 == coeff_a) {
-- 
2.43.0


From 51420bacc8b2c4ef55772fe307ae0aefe21d3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:02 +0000
Subject: [PATCH 109/145] fix: a gain takes its new coefficients into account
 with a constant error

---
 src/task/gain-adaptive.cpp   | 7 ++++++-
 src/task/gain-hyperbolic.cpp | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/task/gain-adaptive.cpp b/src/task/gain-adaptive.cpp
index 6b12a7e..c30d99d 100644
--- a/src/task/gain-adaptive.cpp
+++ b/src/task/gain-adaptive.cpp
@@ -109,6 +109,7 @@ void GainAdaptive::init(const double &valueAt0, const double &valueAtInfty,
     coeff_b = tanAt0 / coeff_a;
   }
   coeff_c = valueAtInfty;
+  gainSOUT.setReady();  // even if the error does not change
 
   return;
 }
@@ -146,9 +147,13 @@ void GainAdaptive::initFromPassingPoint(const double &valueAt0,
     // coeff_b = -1/xref*log( (gref-coeff_c)/coeff_a );
     coeff_b = -1 / xref * log(p);
   }
+  gainSOUT.setReady();
 }
 
-void GainAdaptive::forceConstant(void) { coeff_a = 0; }
+void GainAdaptive::forceConstant(void) {
+  coeff_a = 0;
+  gainSOUT.setReady();
+}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
diff --git a/src/task/gain-hyperbolic.cpp b/src/task/gain-hyperbolic.cpp
index 528ef88..da6332a 100644
--- a/src/task/gain-hyperbolic.cpp
+++ b/src/task/gain-hyperbolic.cpp
@@ -69,11 +69,15 @@ void GainHyperbolic::init(const double &valueAt0, const double &valueAtInfty,
   }
   coeff_c = valueAtInfty;
   coeff_d = decal0;
+  gainSOUT.setReady();  // even if the error does not change
 
   return;
 }
 
-void GainHyperbolic::forceConstant(void) { coeff_a = 0; }
+void GainHyperbolic::forceConstant(void) {
+  coeff_a = 0;
+  gainSOUT.setReady();
+}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From e56f5f4c6e1c7cb13e75f4220a8cb5cac7d2ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:02 +0000
Subject: [PATCH 110/145] fix: an empty task reference can be read back

---
 src/task/multi-bound.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 650d132..daacba8 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -254,6 +254,7 @@ std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
       SOT_MULTI_BOUND_CHECK_C(is, ')', v);
     }
   }
+  if (0 == vali) SOT_MULTI_BOUND_CHECK_C(is, ')', v);
 
   return is;
 }
-- 
2.43.0


From 5bc258404fad7592328eee418f559e2216850022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:02 +0000
Subject: [PATCH 111/145] fix: reading a truncated task reference raises

---
 src/task/multi-bound.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index daacba8..a26d0ed 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -127,11 +127,20 @@ void MultiBound::setSingleBound(double boundValue) {
   boundSingle = boundValue;
 }
 
+inline static double SOT_MULTI_BOUND_READ(std::istream &is) {
+  double val = 0;
+  if (!(is >> val)) {
+    SOT_THROW ExceptionTask(ExceptionTask::PARSER_MULTI_BOUND,
+                            "Error parsing multi-bound, no value.");
+  }
+  return val;
+}
+
 inline static void SOT_MULTI_BOUND_CHECK_C(std::istream &is, char check,
                                            VectorMultiBound &v) {
-  char c;
+  char c = 0;
   is.get(c);
-  if (c != check) {
+  if (!is || c != check) {
     v.resize(0);
     sotERROR << "Error while parsing vector multi-bound. Waiting for a '"
              << check << "'. Get '" << c << "' instead. " << std::endl;
@@ -169,7 +178,7 @@ std::ostream &operator<<(std::ostream &os, const MultiBound &m) {
 
 std::istream &operator>>(std::istream &is, MultiBound &m) {
   sotDEBUGIN(15);
-  char c;
+  char c = 0;
   double val;
   is.get(c);
   if (c == '(') {
@@ -181,12 +190,13 @@ std::istream &operator>>(std::istream &is, MultiBound &m) {
       is.putback(c2[0]);
       //{char strbuf[256]; is.getline(strbuf,256); sotDEBUG(1) <<
       //"#"<<strbuf<<"#"<<std::endl;}
-      is >> val;
+      val = SOT_MULTI_BOUND_READ(is);
       sotDEBUG(15) << "First val = " << val << std::endl;
       m.setDoubleBound(MultiBound::BOUND_INF, val);
     } else {
       m.unsetDoubleBound(MultiBound::BOUND_INF);
     }
+    c = 0;
     is.get(c);
     if (c != ',') {
       sotERROR << "Error while parsing multi-bound. Waiting for a ','. Get '"
@@ -200,12 +210,13 @@ std::istream &operator>>(std::istream &is, MultiBound &m) {
     if (std::string(c2, 2) != "--") {
       is.putback(c2[1]);
       is.putback(c2[0]);
-      is >> val;
+      val = SOT_MULTI_BOUND_READ(is);
       sotDEBUG(15) << "Second val = " << val << std::endl;
       m.setDoubleBound(MultiBound::BOUND_SUP, val);
     } else {
       m.unsetDoubleBound(MultiBound::BOUND_SUP);
     }
+    c = 0;
     is.get(c);
     if (c != ')') {
       sotERROR << "Error while parsing multi-bound. Waiting for a ')'. Get '"
@@ -217,7 +228,7 @@ std::istream &operator>>(std::istream &is, MultiBound &m) {
   } else {
     sotDEBUG(15) << "Single ('" << c << "')" << std::endl;
     is.putback(c);
-    is >> val;
+    val = SOT_MULTI_BOUND_READ(is);
     m.setSingleBound(val);
   }
 
@@ -240,7 +251,7 @@ std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
 
   /* Read the vector size. */
   SOT_MULTI_BOUND_CHECK_C(is, '[', v);
-  is >> vali;
+  if (!(is >> vali)) vali = 0;
   v.resize(vali);
   SOT_MULTI_BOUND_CHECK_C(is, ']', v);
 
-- 
2.43.0


From effe778d88908c7bc9d2370b76b565e4c5b9f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 112/145] fix: a selection is read alike from a string and from
 a stream

---
 src/sot/flags.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sot/flags.cpp b/src/sot/flags.cpp
index 8744bb0..719b5d0 100644
--- a/src/sot/flags.cpp
+++ b/src/sot/flags.cpp
@@ -30,14 +30,15 @@ using namespace dynamicgraph::sot;
 Flags::Flags(const bool &b) : flags(), outOfRangeFlag(b) {}
 
 Flags::Flags(const char *_flags)
-    : flags(strlen(_flags)), outOfRangeFlag(false) {
-  for (unsigned int i = 0; i < flags.size(); ++i) {
+    : flags(), outOfRangeFlag(false) {
+  const std::size_t size = strlen(_flags);
+  for (std::size_t i = 0; i < size; ++i) {
     switch (_flags[i]) {
       case '0':
-        flags[i] = false;
+        flags.push_back(false);
         break;
       case '1':
-        flags[i] = true;
+        flags.push_back(true);
         break;
       case ' ':
         break;
-- 
2.43.0


From 2f218182b22c4eec7163068782c45ddd47776d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 113/145] fix: a flag set beyond the size of a selection is set

---
 src/sot/flags.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sot/flags.cpp b/src/sot/flags.cpp
index 719b5d0..c00cb7d 100644
--- a/src/sot/flags.cpp
+++ b/src/sot/flags.cpp
@@ -71,11 +71,13 @@ void Flags::add(const bool &b) { flags.push_back(b); }
 
 /* --------------------------------------------------------------------- */
 void Flags::set(const unsigned int &idx) {
-  if (idx < flags.size()) flags[idx] = true;
+  if (idx >= flags.size()) flags.resize(idx + 1, outOfRangeFlag);
+  flags[idx] = true;
 }
 
 void Flags::unset(const unsigned int &idx) {
-  if (idx < flags.size()) flags[idx] = false;
+  if (idx >= flags.size()) flags.resize(idx + 1, outOfRangeFlag);
+  flags[idx] = false;
 }
 
 namespace dynamicgraph {
-- 
2.43.0


From 062140451eb0845c4906aae364baa786ca6ec133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 114/145] fix: a selection read from a stream forgets its
 former value

---
 src/sot/flags.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sot/flags.cpp b/src/sot/flags.cpp
index c00cb7d..c34f7b9 100644
--- a/src/sot/flags.cpp
+++ b/src/sot/flags.cpp
@@ -134,6 +134,7 @@ std::ostream &operator<<(std::ostream &os, const Flags &fl) {
 std::istream &operator>>(std::istream &is, Flags &fl) {
   char c;
   fl.flags.clear();
+  fl.outOfRangeFlag = false;
   while (is.get(c).good()) {
     switch (c) {
       case '0':
-- 
2.43.0


From 692c1600b10f348301fa94c25725c1d7523c45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:32 +0000
Subject: [PATCH 115/145] fix: AdmittanceControlOpPoint can be reset before it
 is initialized

---
 src/control/admittance-control-op-point.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 5b0b01d..43c44c1 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -65,6 +65,7 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
+      m_n(6),
       m_initSucceeded(false) {
   Entity::signalRegistration(INPUT_SIGNALS << INNER_SIGNALS << OUTPUT_SIGNALS);
 
-- 
2.43.0


From 93b4140a50f26c37f453c0efde45681e8eab48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:32 +0000
Subject: [PATCH 116/145] fix: the force of AdmittanceControlOpPoint follows
 the pose of its sensor

---
 src/control/admittance-control-op-point.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 43c44c1..458a138 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -61,7 +61,8 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_IN(w_forceDes, dynamicgraph::Vector),
       CONSTRUCT_SIGNAL_IN(opPose, dynamicgraph::sot::MatrixHomogeneous),
       CONSTRUCT_SIGNAL_IN(sensorPose, dynamicgraph::sot::MatrixHomogeneous),
-      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector, m_forceSIN),
+      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector,
+                             m_forceSIN << m_sensorPoseSIN),
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-- 
2.43.0


From 51676580f9c248064d1034e0a40aaca7e1e48287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 117/145] fix: AdmittanceControlOpPoint refuses inputs of an
 unexpected size

---
 src/control/admittance-control-op-point.cpp | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 458a138..929e8aa 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -125,7 +125,8 @@ DEFINE_SIGNAL_INNER_FUNCTION(w_force, dynamicgraph::Vector) {
 
   const Vector &force = m_forceSIN(iter);
   const MatrixHomogeneous &sensorPose = m_sensorPoseSIN(iter);
-  assert(force.size() == m_n && "Unexpected size of signal force");
+  if (force.size() != m_n)
+    throw std::invalid_argument("Unexpected size of signal force");
   pinocchio::SE3 sensorPlacement(
       sensorPose.matrix());  // homogeneous matrix to SE3
   s = sensorPlacement.act(pinocchio::Force(force)).toVector();
@@ -150,12 +151,16 @@ DEFINE_SIGNAL_INNER_FUNCTION(w_dq, dynamicgraph::Vector) {
   const Vector &Kp = m_KpSIN(iter);
   const Vector &Kd = m_KdSIN(iter);
   const Vector &dqSaturation = m_dqSaturationSIN(iter);
-  assert(w_force.size() == m_n && "Unexpected size of signal force");
-  assert(w_forceDes.size() == m_n && "Unexpected size of signal w_forceDes");
-  assert(Kp.size() == m_n && "Unexpected size of signal Kp");
-  assert(Kd.size() == m_n && "Unexpected size of signal Kd");
-  assert(dqSaturation.size() == m_n &&
-         "Unexpected size of signal dqSaturation");
+  if (w_force.size() != m_n)
+    throw std::invalid_argument("Unexpected size of signal force");
+  if (w_forceDes.size() != m_n)
+    throw std::invalid_argument("Unexpected size of signal w_forceDes");
+  if (Kp.size() != m_n)
+    throw std::invalid_argument("Unexpected size of signal Kp");
+  if (Kd.size() != m_n)
+    throw std::invalid_argument("Unexpected size of signal Kd");
+  if (dqSaturation.size() != m_n)
+    throw std::invalid_argument("Unexpected size of signal dqSaturation");
 
   m_w_dq = m_w_dq + m_dt * (Kp.cwiseProduct(w_forceDes - w_force)) -
            Kd.cwiseProduct(m_w_dq);
@@ -183,7 +188,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(dq, dynamicgraph::Vector) {
 
   const Vector &w_dq = m_w_dqSINNER(iter);
   const MatrixHomogeneous &opPose = m_opPoseSIN(iter);
-  assert(w_dq.size() == m_n && "Unexpected size of signal w_dq");
+  if (w_dq.size() != m_n)
+    throw std::invalid_argument("Unexpected size of signal w_dq");
   pinocchio::SE3 opPointPlacement(
       opPose.matrix());  // homogeneous matrix to SE3
   s = opPointPlacement.actInv(pinocchio::Motion(w_dq)).toVector();
-- 
2.43.0


From c2e0057468dbda6f8e8130e9f88710e4a33dce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 118/145] fix: ControlGR refuses inputs whose sizes do not
 agree

---
 src/control/control-gr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/control/control-gr.cpp b/src/control/control-gr.cpp
index 2f757cc..f5f8306 100644
--- a/src/control/control-gr.cpp
+++ b/src/control/control-gr.cpp
@@ -93,6 +93,10 @@ dynamicgraph::Vector &ControlGR::computeControl(dynamicgraph::Vector &tau,
   const dynamicgraph::Vector &acceleration = accelerationSIN(t);
   const dynamicgraph::Vector &gravity = gravitySIN(t);
   dynamicgraph::Vector::Index size = acceleration.size();
+  if (matrixA.rows() != gravity.size() || matrixA.cols() != size)
+    throw std::length_error(
+        "ControlGR: the sizes of the matrix, the acceleration and the gravity "
+        "do not agree");
   tau.resize(size);
   // tau*=0;
   /* for(unsigned i = 0u; i < size; ++i)
-- 
2.43.0


From 3120b5f8da6bb816a41bdb9dba5bdada9bb8bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 119/145] fix: ControlPD refuses inputs whose sizes do not
 agree

---
 src/control/control-pd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/control/control-pd.cpp b/src/control/control-pd.cpp
index 13132ff..451da5e 100644
--- a/src/control/control-pd.cpp
+++ b/src/control/control-pd.cpp
@@ -92,6 +92,11 @@ dynamicgraph::Vector &ControlPD::computeControl(dynamicgraph::Vector &tau,
   const dynamicgraph::Vector &desired_velocity = desiredvelocitySIN(t);
 
   dynamicgraph::Vector::Index size = Kp.size();
+  if (Kd.size() != size || position.size() != size ||
+      desired_position.size() != size || velocity.size() != size ||
+      desired_velocity.size() != size)
+    throw std::length_error(
+        "ControlPD: the inputs should have the size of the gains");
   tau.resize(size);
   position_error_.resize(size);
   velocity_error_.resize(size);
-- 
2.43.0


From bba8b95f84d4ea8b9bcaa1874604e319b432fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 120/145] fix: the jacobian of OpPointModifier follows the
 position

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index f77af94..6b2e613 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -32,7 +32,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           NULL, "OpPointModifior(" + name + ")::input(matrixhomo)::positionIN"),
       jacobianSOUT(
           boost::bind(&OpPointModifier::jacobianSOUT_function, this, _1, _2),
-          jacobianSIN,
+          jacobianSIN << positionSIN,
           "OpPointModifior(" + name + ")::output(matrix)::jacobian"),
       positionSOUT(
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
-- 
2.43.0


From 6e0b11baa1276d2b6b993be1759e6fafbb1fbbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 121/145] fix: OpPointModifier starts with the identity

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 6b2e613..8d7698a 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -38,7 +38,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
           positionSIN,
           "OpPointModifior(" + name + ")::output(matrixhomo)::position"),
-      transformation(),
+      transformation(MatrixHomogeneous::Identity()),
       isEndEffector(true) {
   sotDEBUGIN(15);
 
-- 
2.43.0


From 2d0cc0e9bc4e2d5acbbbfbbfc93305e92884c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 122/145] fix: OpPointModifier refuses a jacobian that has not
 6 rows

---
 src/math/op-point-modifier.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 8d7698a..2318d5a 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -67,6 +67,8 @@ OpPointModifier::OpPointModifier(const std::string &name)
 
 dynamicgraph::Matrix &OpPointModifier::jacobianSOUT_function(
     dynamicgraph::Matrix &res, const int &iter) {
+  if (jacobianSIN(iter).rows() != 6)
+    throw std::length_error("OpPointModifier: the jacobian should have 6 rows");
   if (isEndEffector) {
     const dynamicgraph::Matrix &aJa = jacobianSIN(iter);
     const MatrixHomogeneous &aMb = transformation;
-- 
2.43.0


From 917191ee3f590e3f49df3b7e32c6789ceaed43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 123/145] fix: OpPointModifier takes new settings into account
 with constant inputs

---
 include/sot/core/op-point-modifier.hh |  1 +
 src/math/op-point-modifier.cpp        | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/op-point-modifier.hh b/include/sot/core/op-point-modifier.hh
index 5ac5fdc..f48dc09 100644
--- a/include/sot/core/op-point-modifier.hh
+++ b/include/sot/core/op-point-modifier.hh
@@ -69,6 +69,7 @@ class SOTOPPOINTMODIFIER_EXPORT OpPointModifier : public dynamicgraph::Entity {
   void setTransformation(const Eigen::Matrix4d &tr);
   void setTransformationBySignalName(std::istringstream &cmdArgs);
   const Eigen::Matrix4d &getTransformation(void);
+  void setEndEffector(const bool &mode);
 
  private:
   MatrixHomogeneous transformation;
diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 2318d5a..0614e33 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -52,13 +52,13 @@ OpPointModifier::OpPointModifier(const std::string &name)
                          docDirectGetter("transformation", "matrix 4x4 homo")));
     addCommand(
         "setTransformation",
-        makeDirectSetter(*this, &transformation.matrix(),
+        makeCommandVoid1(*this, &OpPointModifier::setTransformation,
                          docDirectSetter("dimension", "matrix 4x4 homo")));
     addCommand("getEndEffector",
                makeDirectGetter(*this, &isEndEffector,
                                 docDirectGetter("end effector mode", "bool")));
     addCommand("setEndEffector",
-               makeDirectSetter(*this, &isEndEffector,
+               makeCommandVoid1(*this, &OpPointModifier::setEndEffector,
                                 docDirectSetter("end effector mode", "bool")));
   }
 
@@ -125,6 +125,13 @@ MatrixHomogeneous &OpPointModifier::positionSOUT_function(
 
 void OpPointModifier::setTransformation(const Eigen::Matrix4d &tr) {
   transformation.matrix() = tr;
+  // even if the inputs do not change
+  jacobianSOUT.setReady();
+  positionSOUT.setReady();
+}
+void OpPointModifier::setEndEffector(const bool &mode) {
+  isEndEffector = mode;
+  jacobianSOUT.setReady();
 }
 const Eigen::Matrix4d &OpPointModifier::getTransformation(void) {
   return transformation.matrix();
-- 
2.43.0


From d6d49470a1e1e0d0564ef343f81b90e39dce8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 124/145] fix: History keeps plain numbers from signals that
 give arrays

---
 src/dynamic_graph/sot/core/utils/history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index a9dad49..c209c0f 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -2,7 +2,7 @@
 # given time isntant.
 
 from dynamic_graph.sot.core.matrix_util import vectorToTuple
-from numpy import matrix, pi
+from numpy import array, matrix, pi
 
 
 class History:
@@ -22,10 +22,12 @@ class History:
         i = self.dynEnt.position.time
         if i % self.freq == 0:
             # a signal may fail: nothing is recorded before all are read
-            q, qdot = self.dynEnt.position.value, self.dynEnt.velocity.value
+            # (their values are tuples or arrays, plain numbers are kept)
+            q = vectorToTuple(array(self.dynEnt.position.value))
+            qdot = vectorToTuple(array(self.dynEnt.velocity.value))
             if self.withZmp:
                 waMwo = matrix(self.dynEnt.waist.value).I
-                wo_z = matrix(self.zmpSig.value + (1,)).T
+                wo_z = matrix(tuple(self.zmpSig.value) + (1,)).T
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
             self.time.append(i)
             self.q.append(q)
-- 
2.43.0


From c2582c562f86b4aace5ff35884a9a837b5bb9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 125/145] fix: ViewerLoger hands each line to the system

---
 src/dynamic_graph/sot/core/utils/viewer_loger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_loger.py b/src/dynamic_graph/sot/core/utils/viewer_loger.py
index d2759c5..2d495d9 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_loger.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_loger.py
@@ -36,4 +36,6 @@ class ViewerLoger:
             )
             + "\n"
         )
+        # the log is complete even if the process stops here
+        self.fileMap[name].flush()
         self.viewer.updateElementConfig(name, state)
-- 
2.43.0


From ddeb078cab29c3601aa030dba80910414bba55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 126/145] fix: the robot named robot is displayed as hrp

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index ca78b11..a1b243f 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -11,9 +11,7 @@ def stateFullSize(robot, additionalData=()):
 
 
 def refreshView(robot):
-    if robot.name == "robot":
-        name = "hrp"
-    if robot.name == "robot_device":
+    if robot.name in ("robot", "robot_device"):
         name = "hrp"
     else:
         name = robot.name
-- 
2.43.0


From 69e8c1f3f65576f449ae8baeb347020f43d6f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 127/145] fix: a robot whose state is an array can be displayed

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index a1b243f..f0685fe 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -7,7 +7,8 @@ class RobotViewerFaked:
 
 
 def stateFullSize(robot, additionalData=()):
-    return [float(val) for val in robot.state.value + additionalData]
+    # the state is a tuple or a numpy array
+    return [float(val) for val in (*robot.state.value, *additionalData)]
 
 
 def refreshView(robot):
-- 
2.43.0


From 54d563b8d7bf95937195f14d67afb64cbe8fb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 128/145] fix: addRobotViewer changes its robot only, once

---
 .../sot/core/utils/viewer_helper.py           | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index f0685fe..e5e8330 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -1,3 +1,6 @@
+from types import MethodType
+
+
 class RobotViewerFaked:
     def update(*args):
         None
@@ -50,25 +53,28 @@ def addRobotViewer(robot, **args):
     try:
         import robotviewer
 
-        RobotClass = robot.__class__
+        viewer = robotviewer.client(server)
 
+        # Only this robot is displayed, not the others of its class
         if small:
             if verbose:
                 print("using a small robot")
-            RobotClass.stateFullSize = lambda x: stateFullSize(x, small_extra * (0.0,))
+            extra = small_extra * (0.0,)
         else:
-            RobotClass.stateFullSize = stateFullSize
-
-        robot.viewer = robotviewer.client(server)
-
-        RobotClass.refresh = refreshView
-        RobotClass.incrementNoView = RobotClass.increment
-        RobotClass.increment = incrementView
-        RobotClass.setNoView = RobotClass.set
-        RobotClass.set = setView
+            extra = ()
+        robot.stateFullSize = lambda: stateFullSize(robot, extra)
 
+        robot.viewer = viewer
         robot.displayList = []
 
+        # Once: a robot that is displayed already keeps its motions
+        if not hasattr(robot, "incrementNoView"):
+            robot.incrementNoView = robot.increment
+            robot.setNoView = robot.set
+            robot.refresh = MethodType(refreshView, robot)
+            robot.increment = MethodType(incrementView, robot)
+            robot.set = MethodType(setView, robot)
+
         # Check the connection
         if args.get("dorefresh", True):
             robot.refresh()
-- 
2.43.0


From 05c95bc22200a01a32a74f271a7ad6144c5ccc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 129/145] fix: a 6d reference that is not supported is refused

---
 src/dynamic_graph/sot/core/meta_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_tasks.py b/src/dynamic_graph/sot/core/meta_tasks.py
index bd38750..6c88b4e 100644
--- a/src/dynamic_graph/sot/core/meta_tasks.py
+++ b/src/dynamic_graph/sot/core/meta_tasks.py
@@ -65,7 +65,7 @@ def generic6dReference(p):
         M = array(rpy2tr(*p[3:7]))
         M[0:3, 3] = p[0:3]
     else:
-        print("Position with other parameters ... todo")
+        raise ValueError("This kind of 6d reference is not supported")
     return M
 
 
-- 
2.43.0


From 8762fca3b0db60950d27d0bf8890d18bff69725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 130/145] fix: MetaTaskPosture.gotoq belongs to its robot and
 accepts arrays

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 0109cb8..f9264ed 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -6,7 +6,7 @@ from dynamic_graph.sot.core.matrix_util import matrixToTuple, vectorToTuple
 from dynamic_graph.sot.core.meta_task_6d import toFlags  # noqa
 from dynamic_graph.sot.core.meta_tasks import setGain
 from dynamic_graph.sot.core.task import Task
-from numpy import identity, matrix, zeros
+from numpy import identity, matrix, size, zeros
 
 
 class MetaTaskPosture(object):
@@ -60,22 +60,25 @@ class MetaTaskPosture(object):
 
     def gotoq(self, gain=None, qdes=None, **kwargs):
         act = list()
+        if self.nbDof is None:
+            # of this robot: another one may have another number of joints
+            self.nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
             if isinstance(qdes, tuple):
                 qdes = matrix(qdes).T
+            else:
+                qdes = qdes.copy()
         else:
-            if MetaTaskPosture.nbDof is None:
-                MetaTaskPosture.nbDof = len(self.feature.errorIN.value)
-            qdes = zeros((MetaTaskPosture.nbDof, 1))
+            qdes = zeros((self.nbDof, 1))
 
         act = [
             False,
-        ] * MetaTaskPosture.nbDof
+        ] * self.nbDof
         for limbName, jointValues in kwargs.items():
             limbRange = self.postureRange[limbName]
             for i in limbRange:
                 act[i] = True
-            if jointValues != []:
+            if size(jointValues) > 0:
                 if isinstance(jointValues, matrix):
                     qdes[limbRange, 0] = vectorToTuple(jointValues)
                 else:
-- 
2.43.0


From 4adc70139db5667cb5a84693795ca02908f0d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 131/145] fix: a refused operational point modification changes
 nothing

---
 src/dynamic_graph/sot/core/meta_task_6d.py             | 3 ++-
 src/dynamic_graph/sot/core/meta_tasks_kine_relative.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_6d.py b/src/dynamic_graph/sot/core/meta_task_6d.py
index 17d17cf..7a79cd9 100644
--- a/src/dynamic_graph/sot/core/meta_task_6d.py
+++ b/src/dynamic_graph/sot/core/meta_task_6d.py
@@ -102,8 +102,9 @@ class MetaTask6d(object):
             plug(self.dyn.signal("J" + self.opPoint), self.feature.signal("Jq"))
             self.opPointModif.activ = False
         else:
+            # may refuse the matrix: before anything is plugged
+            self.opPointModif.setTransformation(m)
             if not self.opPointModif.activ:
                 plug(self.opPointModif.signal("position"), self.feature.position)
                 plug(self.opPointModif.signal("jacobian"), self.feature.Jq)
-            self.opPointModif.setTransformation(m)
             self.opPointModif.activ = True
diff --git a/src/dynamic_graph/sot/core/meta_tasks_kine_relative.py b/src/dynamic_graph/sot/core/meta_tasks_kine_relative.py
index 7b243c6..6e8fd88 100644
--- a/src/dynamic_graph/sot/core/meta_tasks_kine_relative.py
+++ b/src/dynamic_graph/sot/core/meta_tasks_kine_relative.py
@@ -83,10 +83,11 @@ class MetaTaskKine6dRel(MetaTask6d):
             plug(self.dyn.signal("J" + self.opPointBase), self.feature.signal("JqRef"))
             self.opPointModifBase.activ = False
         else:
+            # may refuse the matrix: before anything is plugged
+            self.opPointModifBase.setTransformation(m)
             if not self.opPointModifBase.activ:
                 plug(self.opPointModifBase.signal("position"), self.feature.positionRef)
                 plug(self.opPointModifBase.signal("jacobian"), self.feature.JqRef)
-            self.opPointModifBase.setTransformation(m)
             self.opPointModifBase.activ = True
 
 
-- 
2.43.0


From 75b91ddf6be07bfd20af4516a86f63a497a7c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 132/145] fix: MetaTaskVisualPoint works with Python 3

---
 .../sot/core/meta_task_visual_point.py           | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index a5629b3..564a621 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -1,4 +1,5 @@
 from dynamic_graph import plug
+from dynamic_graph.sot.core import Flags
 from dynamic_graph.sot.core.feature_visual_point import FeatureVisualPoint
 from dynamic_graph.sot.core.gain_adaptive import GainAdaptive
 from dynamic_graph.sot.core.meta_tasks import setGain
@@ -17,12 +18,10 @@ class MetaTaskVisualPoint(object):
     proj = 0
 
     def opPointExist(self, opPoint):
-        sigsP = filter(
-            lambda x: x.getName().split(":")[-1] == opPoint, self.dyn.signals()
-        )
-        sigsJ = filter(
-            lambda x: x.getName().split(":")[-1] == "J" + opPoint, self.dyn.signals()
-        )
+        sigsP = [x for x in self.dyn.signals() if x.getName().split(":")[-1] == opPoint]
+        sigsJ = [
+            x for x in self.dyn.signals() if x.getName().split(":")[-1] == "J" + opPoint
+        ]
         return len(sigsP) == 1 & len(sigsJ) == 1
 
     def defineDynEntities(self, dyn):
@@ -45,7 +44,7 @@ class MetaTaskVisualPoint(object):
     def createFeatures(self):
         self.feature = FeatureVisualPoint("feature" + self.name)
         self.featureDes = FeatureVisualPoint("feature" + self.name + "_ref")
-        self.feature.selec.value = "11"
+        self.feature.selec.value = Flags("11")
 
     def createTask(self):
         self.task = Task("task" + self.name)
@@ -108,10 +107,11 @@ class MetaTaskVisualPoint(object):
             plug(self.dyn.signal("J" + self.opPoint), self.feature.signal("Jq"))
             self.opPointModif.activ = False
         else:
+            # may refuse the matrix: before anything is plugged
+            self.opPointModif.setTransformation(m)
             if not self.opPointModif.activ:
                 plug(self.opPointModif.signal("position"), self.proj.signal("transfo"))
                 plug(self.opPointModif.signal("jacobian"), self.feature.signal("Jq"))
-            self.opPointModif.setTransformation(m)
             self.opPointModif.activ = True
 
     def goto3D(self, point3D, gain=None, ref2D=None, selec=None):
-- 
2.43.0


From b7a6a29893f50768aeb08bfd65f88c17897cb2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:05 +0000
Subject: [PATCH 133/145] fix: operators refuse operands whose sizes do not
 agree

---
 src/matrix/operator.hh | 108 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 97 insertions(+), 11 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index e387177..17bff2b 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -35,6 +35,36 @@ namespace dg = ::dynamicgraph;
 
 namespace dynamicgraph {
 namespace sot {
+/// Settings of an operator: the output of the entity that owns the operator, if
+/// any, is computed again after they changed, even if all inputs are constant.
+struct OperatorSettings {
+  OperatorSettings() : sout(NULL) {}
+  inline void attach(Entity &ent) { sout = &ent.getSignal("sout"); }
+  inline void changed() {
+    if (sout != NULL) sout->setReady();
+  }
+  /// Command that changes one setting
+  template <typename T>
+  command::Command *makeSetter(Entity &ent, T *value, const std::string &doc) {
+    boost::function<void(const T &)> callback =
+        boost::bind(&OperatorSettings::set<T>, this, value, _1);
+    return command::makeCommandVoid1(ent, callback, doc);
+  }
+
+ private:
+  template <typename T>
+  void set(T *value, const T &v) {
+    *value = v;
+    changed();
+  }
+  SignalBase<int> *sout;
+};
+
+/// Refuse an invalid operand.
+inline void checkOperand(bool valid, const char *message) {
+  if (!valid) throw std::invalid_argument(message);
+}
+
 template <typename TypeIn, typename TypeOut>
 struct UnaryOpHeader {
   typedef TypeIn Tin;
@@ -68,7 +98,8 @@ struct VectorSelecter : public UnaryOpHeader<dg::Vector, dg::Vector> {
     for (std::size_t i = 0; i < idxs.size(); ++i) {
       const Vector::Index &R = idxs[i].first;
       const Vector::Index &nr = idxs[i].second;
-      assert((nr >= 0) && (R + nr <= m.size()));
+      checkOperand(R + nr <= m.size(), "Selec_of_vector: the vector is shorter"
+                                       " than the selection");
       res.segment(r, nr) = m.segment(R, nr);
       r += nr;
     }
@@ -140,8 +171,8 @@ struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
 /* ---------------------------------------------------------------------- */
 struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
   inline void operator()(const Matrix &m, Matrix &res) const {
-    assert((imin <= imax) && (imax <= m.rows()));
-    assert((jmin <= jmax) && (jmax <= m.cols()));
+    checkOperand(imax <= m.rows() && jmax <= m.cols(),
+                 "Selec_of_matrix: the matrix is smaller than the selection");
     res.resize(imax - imin, jmax - jmin);
     for (int i = imin; i < imax; ++i)
       for (int j = jmin; j < jmax; ++j) res(i - imin, j - jmin) = m(i, j);
@@ -183,8 +214,9 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
 struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
  public:
   inline void operator()(const Tin &m, Tout &res) const {
-    assert((imin <= imax) && (imax <= m.rows()));
-    assert(jcol < m.cols());
+    checkOperand(imax <= m.rows() && jcol < m.cols(),
+                 "Selec_column_of_matrix: the matrix is smaller than the "
+                 "selection");
 
     res.resize(imax - imin);
     for (int i = imin; i < imax; ++i) res(i - imin) = m(i, jcol);
@@ -257,6 +289,12 @@ struct Inverser : public UnaryOpHeader<matrixgen, matrixgen> {
   typedef typename UnaryOpHeader<matrixgen, matrixgen>::Tout Tout;
   inline void operator()(const Tin &m, Tout &res) const { res = m.inverse(); }
 };
+template <>
+inline void Inverser<Matrix>::operator()(const Matrix &m, Matrix &res) const {
+  checkOperand(m.rows() == m.cols(),
+               "Inverse_of_matrix: the matrix is not square");
+  res = m.inverse();
+}
 
 struct Normalize : public UnaryOpHeader<dg::Vector, double> {
   inline void operator()(const dg::Vector &m, double &res) const {
@@ -307,7 +345,8 @@ struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
 struct PoseUThetaToMatrixHomo
     : public UnaryOpHeader<Vector, MatrixHomogeneous> {
   inline void operator()(const dg::Vector &v, MatrixHomogeneous &res) {
-    assert(v.size() >= 6);
+    checkOperand(v.size() >= 6,
+                 "PoseUThetaToMatrixHomo: the pose has 6 components");
     res.translation() = v.head<3>();
     double theta = v.tail<3>().norm();
     if (theta > 0)
@@ -320,6 +359,8 @@ struct PoseUThetaToMatrixHomo
 struct SE3VectorToMatrixHomo
     : public UnaryOpHeader<dg::Vector, MatrixHomogeneous> {
   void operator()(const dg::Vector &vect, MatrixHomogeneous &Mres) {
+    checkOperand(vect.size() >= 12,
+                 "SE3VectorToMatrixHomo: the pose has 12 components");
     Mres.translation() = vect.head<3>();
     Mres.linear().row(0) = vect.segment(3, 3);
     Mres.linear().row(1) = vect.segment(6, 3);
@@ -341,6 +382,8 @@ struct MatrixHomoToSE3Vector
 struct PoseQuaternionToMatrixHomo
     : public UnaryOpHeader<Vector, MatrixHomogeneous> {
   void operator()(const dg::Vector &vect, MatrixHomogeneous &Mres) {
+    checkOperand(vect.size() >= 7,
+                 "PoseQuaternionToMatrixHomo: the pose has 7 components");
     Mres.translation() = vect.head<3>();
     Mres.linear() = VectorQuaternion(vect.tail<4>()).toRotationMatrix();
   }
@@ -371,6 +414,8 @@ struct MatrixHomoToPoseRollPitchYaw
 struct PoseRollPitchYawToMatrixHomo
     : public UnaryOpHeader<Vector, MatrixHomogeneous> {
   inline void operator()(const dg::Vector &vect, MatrixHomogeneous &Mres) {
+    checkOperand(vect.size() >= 6,
+                 "PoseRollPitchYawToMatrixHomo: the pose has 6 components");
     VectorRollPitchYaw r;
     for (unsigned int i = 0; i < 3; ++i) r(i) = vect(i + 3);
     MatrixRotation R = (Eigen::AngleAxisd(r(2), Eigen::Vector3d::UnitZ()) *
@@ -388,6 +433,8 @@ struct PoseRollPitchYawToMatrixHomo
 
 struct PoseRollPitchYawToPoseUTheta : public UnaryOpHeader<Vector, Vector> {
   inline void operator()(const dg::Vector &vect, dg::Vector &vectres) {
+    checkOperand(vect.size() >= 6,
+                 "PoseRollPitchYawToPoseUTheta: the pose has 6 components");
     VectorRollPitchYaw r;
     for (unsigned int i = 0; i < 3; ++i) r(i) = vect(i + 3);
     MatrixRotation R = (Eigen::AngleAxisd(r(2), Eigen::Vector3d::UnitZ()) *
@@ -412,9 +459,10 @@ struct HomoToMatrix : public UnaryOpHeader<MatrixHomogeneous, Matrix> {
 };
 
 struct MatrixToHomo : public UnaryOpHeader<Matrix, MatrixHomogeneous> {
-  inline void operator()(const Eigen::Matrix<double, 4, 4> &M,
-                         MatrixHomogeneous &res) {
-    res = M;
+  inline void operator()(const Matrix &M, MatrixHomogeneous &res) {
+    checkOperand(M.rows() == 4 && M.cols() == 4,
+                 "MatrixToHomo: the matrix is not 4x4");
+    res.matrix() = M;
   }
 };
 
@@ -552,7 +600,11 @@ namespace sot {
 
 template <typename F, typename E>
 struct Multiplier_FxE__E : public BinaryOpHeader<F, E, E> {
-  inline void operator()(const F &f, const E &e, E &res) const { res = f * e; }
+  inline void operator()(const F &f, const E &e, E &res) const {
+    checkOperand(f.cols() == e.rows(),
+                 "Multiply: the sizes of the operands do not match");
+    res = f * e;
+  }
 };
 
 template <>
@@ -560,6 +612,8 @@ inline void
 Multiplier_FxE__E<dynamicgraph::sot::MatrixHomogeneous, dynamicgraph::Vector>::
 operator()(const dynamicgraph::sot::MatrixHomogeneous &f,
            const dynamicgraph::Vector &e, dynamicgraph::Vector &res) const {
+  checkOperand(e.size() == 4,
+               "Multiply_matrixHomo_vector: the vector has 4 components");
   res = f.matrix() * e;
 }
 
@@ -580,10 +634,19 @@ typedef Multiplier_FxE__E<MatrixHomogeneous, dynamicgraph::Vector>
 typedef Multiplier_FxE__E<MatrixTwist, dynamicgraph::Vector>
     Multiplier_matrixTwist_vector;
 
+/* --- SIZES ------------------------------------------------------------ */
+template <typename T1, typename T2>
+inline void checkSameSize(const T1 &a, const T2 &b) {
+  checkOperand(a.rows() == b.rows() && a.cols() == b.cols(),
+               "The operands do not have the same size");
+}
+inline void checkSameSize(const double &, const double &) {}
+
 /* --- SUBSTRACTION ----------------------------------------------------- */
 template <typename T>
 struct Substraction : public BinaryOpHeader<T, T, T> {
   inline void operator()(const T &v1, const T &v2, T &r) const {
+    checkSameSize(v1, v2);
     r = v1;
     r -= v2;
   }
@@ -652,6 +715,9 @@ struct Composer
   inline void operator()(const dynamicgraph::Matrix &R,
                          const dynamicgraph::Vector &t,
                          MatrixHomogeneous &H) const {
+    checkOperand(R.rows() == 3 && R.cols() == 3 && t.size() == 3,
+                 "Compose_R_and_T: the rotation is 3x3, the translation has 3 "
+                 "components");
     H.linear() = R;
     H.translation() = t;
   }
@@ -724,6 +790,8 @@ template <typename T1, typename T2 = T1>
 struct MatrixComparison : public BinaryOpHeader<T1, T2, bool> {
   // TODO T1 or T2 could be a scalar type.
   inline void operator()(const T1 &a, const T2 &b, bool &res) const {
+    checkOperand(a.size() == b.size(),
+                 "CompareVector: the vectors do not have the same size");
     if (equal && any)
       res = (a.array() <= b.array()).any();
     else if (equal && !any)
@@ -912,6 +980,7 @@ struct AdderVariadic : public VariadicOpHeader<T, T> {
   inline void operator()(const std::vector<const T *> &vs, T &res) const {
     assert(vs.size() == (std::size_t)coeffs.size());
     if (vs.size() == 0) return;
+    for (std::size_t i = 1; i < vs.size(); ++i) checkSameSize(*vs[0], *vs[i]);
     res = coeffs[0] * (*vs[0]);
     for (std::size_t i = 1; i < vs.size(); ++i) res += coeffs[i] * (*vs[i]);
   }
@@ -967,6 +1036,20 @@ inline void Multiplier<double>::setIdentity(double &res) const {
   res = 1;
 }
 template <>
+inline void Multiplier<Matrix>::operator()(const std::vector<const Matrix *> &vs,
+                                           Matrix &res) const {
+  if (vs.size() == 0)
+    setIdentity(res);
+  else {
+    res = *vs[0];
+    for (std::size_t i = 1; i < vs.size(); ++i) {
+      checkOperand(res.cols() == vs[i]->rows(),
+                   "Multiply_of_matrix: the sizes of the operands do not match");
+      res *= *vs[i];
+    }
+  }
+}
+template <>
 inline void Multiplier<MatrixHomogeneous>::operator()(
     const std::vector<const MatrixHomogeneous *> &vs,
     MatrixHomogeneous &res) const {
@@ -984,7 +1067,10 @@ inline void Multiplier<Vector>::operator()(
     res.resize(0);
   else {
     res = *vs[0];
-    for (std::size_t i = 1; i < vs.size(); ++i) res.array() *= vs[i]->array();
+    for (std::size_t i = 1; i < vs.size(); ++i) {
+      checkSameSize(res, *vs[i]);
+      res.array() *= vs[i]->array();
+    }
   }
 }
 
-- 
2.43.0


From b92814ca35b5f6649f4e264fcf9ec8ba1969d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:05 +0000
Subject: [PATCH 134/145] fix: SkewSymToVector gives the vector of the matrix

---
 src/matrix/operator.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 17bff2b..714bbce 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -335,10 +335,12 @@ struct MatrixHomoToPoseUTheta
 
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
+    checkOperand(M.rows() == 3 && M.cols() == 3,
+                 "SkewSymToVector: the matrix is not 3x3");
     res.resize(3);
-    res(0) = M(7);
-    res(1) = M(2);
-    res(2) = M(3);
+    res(0) = M(2, 1);
+    res(1) = M(0, 2);
+    res(2) = M(1, 0);
   }
 };
 
-- 
2.43.0


From f996d457f6bf52fffaf8220f2d282ad558e8c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:05 +0000
Subject: [PATCH 135/145] fix: MatrixDiagonal has the size it was given

---
 src/matrix/operator.hh | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 714bbce..5898096 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -256,25 +256,38 @@ struct MatrixTranspose : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
 /* ---------------------------------------------------------------------- */
 struct Diagonalizer : public UnaryOpHeader<Vector, Matrix> {
   inline void operator()(const dg::Vector &r, dg::Matrix &res) {
-    res = r.asDiagonal();
+    if (nbr == 0 || nbc == 0) {
+      res = r.asDiagonal();
+      return;
+    }
+    const Matrix::Index n = std::min(nbr, nbc);
+    checkOperand(n <= r.size(), "MatrixDiagonal: the vector is too short");
+    res = Matrix::Zero(nbr, nbc);
+    res.diagonal() = r.head(n);
   }
 
  public:
   Diagonalizer(void) : nbr(0), nbc(0) {}
   unsigned int nbr, nbc;
+  OperatorSettings settings;
   inline void resize(const int &r, const int &c) {
+    checkOperand(0 <= r && 0 <= c, "MatrixDiagonal: the size is negative");
     nbr = r;
     nbc = c;
+    settings.changed();
   }
   inline void addSpecificCommands(Entity &ent,
                                   Entity::CommandMap_t &commandMap) {
     using namespace dynamicgraph::command;
     std::string doc;
+    settings.attach(ent);
 
     boost::function<void(const int &, const int &)> resize =
         boost::bind(&Diagonalizer::resize, this, _1, _2);
 
-    doc = docCommandVoid2("Set output size.", "int (row)", "int (col)");
+    doc = docCommandVoid2(
+        "Set output size (the size of the input if one is zero).", "int (row)",
+        "int (col)");
     ADD_COMMAND("resize", makeCommandVoid2(ent, resize, doc));
   }
 };
-- 
2.43.0


From 570fcf86118161bdc58343453f50fdc60f4d159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:26 +0000
Subject: [PATCH 136/145] fix: ConvolutionTemporal reports samples it cannot
 use

---
 src/matrix/operator.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 5898096..46ff9ac 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -768,6 +768,11 @@ struct ConvolutionTemporal
   inline void operator()(const dynamicgraph::Vector &v1,
                          const dynamicgraph::Matrix &m2,
                          dynamicgraph::Vector &res) {
+    checkOperand(v1.size() == m2.rows(),
+                 "ConvolutionTemporal: the signal and the kernel do not have "
+                 "the same number of rows");
+    // the samples of another signal are of no use
+    if (!memory.empty() && memory.front().size() != v1.size()) memory.clear();
     memory.push_front(v1);
     while ((Vector::Index)memory.size() > m2.cols()) memory.pop_back();
     convolution(memory, m2, res);
-- 
2.43.0


From 4316ac1acb7da9897e263b353b7fefe238a46d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:26 +0000
Subject: [PATCH 137/145] fix: operators take valid settings only, and at once

---
 src/matrix/operator.hh | 64 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 46ff9ac..9a04a15 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -110,20 +110,26 @@ struct VectorSelecter : public UnaryOpHeader<dg::Vector, dg::Vector> {
   typedef std::vector<segment_t> segments_t;
   segments_t idxs;
   Vector::Index size;
+  OperatorSettings settings;
 
   inline void setBounds(const int &m, const int &M) {
+    checkOperand(0 <= m && m <= M, "Selec_of_vector: invalid bounds");
     idxs = segments_t(1, segment_t(m, M - m));
     size = M - m;
+    settings.changed();
   }
   inline void addBounds(const int &m, const int &M) {
+    checkOperand(0 <= m && m <= M, "Selec_of_vector: invalid bounds");
     idxs.push_back(segment_t(m, M - m));
     size += M - m;
+    settings.changed();
   }
 
   inline void addSpecificCommands(Entity &ent,
                                   Entity::CommandMap_t &commandMap) {
     using namespace dynamicgraph::command;
     std::string doc;
+    settings.attach(ent);
 
     boost::function<void(const int &, const int &)> setBound =
         boost::bind(&VectorSelecter::setBounds, this, _1, _2);
@@ -142,16 +148,24 @@ struct VectorSelecter : public UnaryOpHeader<dg::Vector, dg::Vector> {
 /* ---------------------------------------------------------------------- */
 struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
   inline void operator()(const Tin &m, double &res) const {
-    assert(index < m.size());
+    checkOperand(index < m.size(),
+                 "Component_of_vector: the vector has no such component");
     res = m(index);
   }
 
   int index;
-  inline void setIndex(const int &m) { index = m; }
+  OperatorSettings settings;
+  VectorComponent() : index(0) {}
+  inline void setIndex(const int &m) {
+    checkOperand(0 <= m, "Component_of_vector: the index is negative");
+    index = m;
+    settings.changed();
+  }
 
   inline void addSpecificCommands(Entity &ent,
                                   Entity::CommandMap_t &commandMap) {
     std::string doc;
+    settings.attach(ent);
 
     boost::function<void(const int &)> callback =
         boost::bind(&VectorComponent::setIndex, this, _1);
@@ -181,20 +195,27 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
  public:
   int imin, imax;
   int jmin, jmax;
+  OperatorSettings settings;
+  MatrixSelector() : imin(0), imax(0), jmin(0), jmax(0) {}
 
   inline void setBoundsRow(const int &m, const int &M) {
+    checkOperand(0 <= m && m <= M, "Selec_of_matrix: invalid bounds");
     imin = m;
     imax = M;
+    settings.changed();
   }
   inline void setBoundsCol(const int &m, const int &M) {
+    checkOperand(0 <= m && m <= M, "Selec_of_matrix: invalid bounds");
     jmin = m;
     jmax = M;
+    settings.changed();
   }
 
   inline void addSpecificCommands(Entity &ent,
                                   Entity::CommandMap_t &commandMap) {
     using namespace dynamicgraph::command;
     std::string doc;
+    settings.attach(ent);
 
     boost::function<void(const int &, const int &)> setBoundsRow =
         boost::bind(&MatrixSelector::setBoundsRow, this, _1, _2);
@@ -224,16 +245,25 @@ struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
 
   int imin, imax;
   int jcol;
-  inline void selectCol(const int &m) { jcol = m; }
+  OperatorSettings settings;
+  MatrixColumnSelector() : imin(0), imax(0), jcol(0) {}
+  inline void selectCol(const int &m) {
+    checkOperand(0 <= m, "Selec_column_of_matrix: the index is negative");
+    jcol = m;
+    settings.changed();
+  }
   inline void setBoundsRow(const int &m, const int &M) {
+    checkOperand(0 <= m && m <= M, "Selec_column_of_matrix: invalid bounds");
     imin = m;
     imax = M;
+    settings.changed();
   }
 
   inline void addSpecificCommands(Entity &ent,
                                   Entity::CommandMap_t &commandMap) {
     using namespace dynamicgraph::command;
     std::string doc;
+    settings.attach(ent);
 
     boost::function<void(const int &, const int &)> setBoundsRow =
         boost::bind(&MatrixColumnSelector::setBoundsRow, this, _1, _2);
@@ -674,11 +704,13 @@ struct VectorStack
  public:
   int v1min, v1max;
   int v2min, v2max;
+  OperatorSettings settings;
+  VectorStack() : v1min(0), v1max(0), v2min(0), v2max(0) {}
   inline void operator()(const dynamicgraph::Vector &v1,
                          const dynamicgraph::Vector &v2,
                          dynamicgraph::Vector &res) const {
-    assert((v1max >= v1min) && (v1.size() >= v1max));
-    assert((v2max >= v2min) && (v2.size() >= v2max));
+    checkOperand(v1max <= v1.size() && v2max <= v2.size(),
+                 "Stack_of_vector: a vector is shorter than its selection");
 
     const int v1size = v1max - v1min, v2size = v2max - v2min;
     res.resize(v1size + v2size);
@@ -691,18 +723,23 @@ struct VectorStack
   }
 
   inline void selec1(const int &m, const int M) {
+    checkOperand(0 <= m && m <= M, "Stack_of_vector: invalid bounds");
     v1min = m;
     v1max = M;
+    settings.changed();
   }
   inline void selec2(const int &m, const int M) {
+    checkOperand(0 <= m && m <= M, "Stack_of_vector: invalid bounds");
     v2min = m;
     v2max = M;
+    settings.changed();
   }
 
   inline void addSpecificCommands(Entity &ent,
                                   Entity::CommandMap_t &commandMap) {
     using namespace dynamicgraph::command;
     std::string doc;
+    settings.attach(ent);
 
     boost::function<void(const int &, const int &)> selec1 =
         boost::bind(&VectorStack::selec1, this, _1, _2);
@@ -847,18 +884,21 @@ struct MatrixComparison : public BinaryOpHeader<T1, T2, bool> {
   inline void addSpecificCommands(Entity &ent,
                                   Entity::CommandMap_t &commandMap) {
     using namespace dynamicgraph::command;
+    settings.attach(ent);
     ADD_COMMAND(
         "setTrueIfAny",
-        makeDirectSetter(ent, &any, docDirectSetter("trueIfAny", "bool")));
+        settings.makeSetter(ent, &any, docDirectSetter("trueIfAny", "bool")));
     ADD_COMMAND(
         "getTrueIfAny",
         makeDirectGetter(ent, &any, docDirectGetter("trueIfAny", "bool")));
-    ADD_COMMAND("setEqual", makeDirectSetter(ent, &equal,
-                                             docDirectSetter("equal", "bool")));
+    ADD_COMMAND("setEqual",
+                settings.makeSetter(ent, &equal,
+                                    docDirectSetter("equal", "bool")));
     ADD_COMMAND("getEqual", makeDirectGetter(ent, &equal,
                                              docDirectGetter("equal", "bool")));
   }
   bool any, equal;
+  OperatorSettings settings;
 };
 
 } /* namespace sot */
@@ -871,7 +911,10 @@ template <typename T>
 struct WeightedAdder : public BinaryOpHeader<T, T, T> {
  public:
   double gain1, gain2;
+  OperatorSettings settings;
+  WeightedAdder() : gain1(1.), gain2(1.) {}
   inline void operator()(const T &v1, const T &v2, T &res) const {
+    checkSameSize(v1, v2);
     res = v1;
     res *= gain1;
     res += gain2 * v2;
@@ -881,13 +924,14 @@ struct WeightedAdder : public BinaryOpHeader<T, T, T> {
                                   Entity::CommandMap_t &commandMap) {
     using namespace dynamicgraph::command;
     std::string doc;
+    settings.attach(ent);
 
     ADD_COMMAND(
         "setGain1",
-        makeDirectSetter(ent, &gain1, docDirectSetter("gain1", "double")));
+        settings.makeSetter(ent, &gain1, docDirectSetter("gain1", "double")));
     ADD_COMMAND(
         "setGain2",
-        makeDirectSetter(ent, &gain2, docDirectSetter("gain2", "double")));
+        settings.makeSetter(ent, &gain2, docDirectSetter("gain2", "double")));
     ADD_COMMAND(
         "getGain1",
         makeDirectGetter(ent, &gain1, docDirectGetter("gain1", "double")));
-- 
2.43.0


From f13ec08661da2dd8c4427c1fa5a3c8726c4fcc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 138/145] fix: display features whose inputs are not set

---
 include/sot/core/feature-pose.hxx        | 2 +-
 src/feature/feature-1d.cpp               | 2 +-
 src/feature/feature-point6d-relative.cpp | 2 +-
 src/feature/feature-point6d.cpp          | 2 +-
 src/feature/feature-visual-point.cpp     | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/sot/core/feature-pose.hxx b/include/sot/core/feature-pose.hxx
index d335ce4..7055104 100644
--- a/include/sot/core/feature-pose.hxx
+++ b/include/sot/core/feature-pose.hxx
@@ -335,7 +335,7 @@ void FeaturePose<representation>::display(std::ostream &os) const {
         os << featureNames[i];
       }
     os << ") ";
-  } catch (ExceptionAbstract e) {
+  } catch (const std::exception &) {
     os << " selectSIN not set.";
   }
 }
diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index c96b590..0cf4c96 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -102,7 +102,7 @@ void Feature1D::display(std::ostream &os) const {
   try {
     os << "  error= " << errorSIN.accessCopy() << endl
        << "  J    = " << jacobianSIN.accessCopy() << endl;
-  } catch (ExceptionAbstract e) {
+  } catch (const std::exception &) {
     os << " All SIN not set.";
   }
 }
diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 471d5e1..8622064 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -270,7 +270,7 @@ void FeaturePoint6dRelative::display(std::ostream &os) const {
         os << featureNames[i];
       }
     os << ") ";
-  } catch (ExceptionAbstract e) {
+  } catch (const std::exception &) {
     os << " selectSIN not set.";
   }
 }
diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 18e73cd..4d62ac7 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -515,7 +515,7 @@ void FeaturePoint6d::display(std::ostream &os) const {
         os << featureNames[i];
       }
     os << ") ";
-  } catch (ExceptionAbstract e) {
+  } catch (const std::exception &) {
     os << " selectSIN not set.";
   }
 }
diff --git a/src/feature/feature-visual-point.cpp b/src/feature/feature-visual-point.cpp
index b2847e8..f966223 100644
--- a/src/feature/feature-visual-point.cpp
+++ b/src/feature/feature-visual-point.cpp
@@ -167,16 +167,16 @@ void FeatureVisualPoint::display(std::ostream &os) const {
   try {
     const Vector &xy = xySIN.accessCopy();
     const Flags &fl = selectionSIN.accessCopy();
-    if (fl(0)) os << " x=" << xy(0);
-    if (fl(1)) os << " y=" << xy(1);
-  } catch (ExceptionAbstract e) {
+    if (fl(0) && xy.size() > 0) os << " x=" << xy(0);
+    if (fl(1) && xy.size() > 1) os << " y=" << xy(1);
+  } catch (const std::exception &) {
     os << " XY or select not set.";
   }
 
   try {
     const double &z = ZSIN.accessCopy();
     os << " Z=" << z << " ";
-  } catch (ExceptionAbstract e) {
+  } catch (const std::exception &) {
     os << " Z not set.";
   }
 }
-- 
2.43.0


From 91139a25eff82f8fe8e9327142bb3009876c6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 139/145] fix: give the rotation error of FeaturePoint6d a
 value at construction

---
 src/feature/feature-point6d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 4d62ac7..f0a68c0 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -53,7 +53,7 @@ FeaturePoint6d::FeaturePoint6d(const string &pointName)
                   "sotFeaturePoint6d(" + name + ")::input(vector)::velocity"),
       articularJacobianSIN(
           NULL, "sotFeaturePoint6d(" + name + ")::input(matrix)::Jq"),
-      error_th_(),
+      error_th_(Eigen::AngleAxisd::Identity()),
       R_(),
       Rref_(),
       Rt_(),
-- 
2.43.0


From b8b38f44cc51944183a4a0c9b45c7e38d7b4de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 140/145] fix: a new FeatureTask has no task

---
 src/feature/feature-task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-task.cpp b/src/feature/feature-task.cpp
index 2177dab..397e725 100644
--- a/src/feature/feature-task.cpp
+++ b/src/feature/feature-task.cpp
@@ -29,7 +29,8 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeatureTask, "FeatureTask");
 /* --- CLASS ----------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-FeatureTask::FeatureTask(const string &pointName) : FeatureGeneric(pointName) {}
+FeatureTask::FeatureTask(const string &pointName)
+    : FeatureGeneric(pointName), taskPtr(NULL) {}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 17986c88eac2a9db5b8f43dafc2b6cb40a4bf489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 141/145] fix: give the attitude, time step and free-flyer pose
 of a Device a value at construction

---
 src/tools/device.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 9974d5f..ca3d2b5 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -75,6 +75,7 @@ Device::Device(const std::string &n)
       state_(6),
       sanityCheck_(true),
       controlInputType_(CONTROL_INPUT_ONE_INTEGRATION),
+      timestep_(5e-2),
       controlSIN(NULL, "Device(" + n + ")::input(double)::control"),
       attitudeSIN(NULL, "Device(" + n + ")::input(vector3)::attitudeIN"),
       zmpSIN(NULL, "Device(" + n + ")::input(vector3)::zmp"),
@@ -92,7 +93,7 @@ Device::Device(const std::string &n)
       pseudoTorqueSOUT("Device(" + n + ")::output(vector)::ptorque")
 
       ,
-      ffPose_(),
+      ffPose_(MatrixHomogeneous::Identity()),
       forceZero6(6) {
   forceZero6.fill(0);
   /* --- SIGNALS --- */
@@ -120,6 +121,7 @@ Device::Device(const std::string &n)
   velocity_.resize(state_.size());
   velocity_.setZero();
   velocitySOUT.setConstant(velocity_);
+  attitudeSOUT.setConstant(MatrixRotation::Identity());
 
   /* --- Commands --- */
   {
-- 
2.43.0


From f02434945b3dd56610130ed3a5a72ecfa026bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 142/145] fix: give the waist of SotJointTrajectoryEntity a
 value at construction

---
 src/tools/joint-trajectory-entity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 65e06cf..23d1fae 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -62,6 +62,7 @@ SotJointTrajectoryEntity::SotJointTrajectoryEntity(const std::string &n)
                               ")::input(trajectory)::trajectoryIN"),
       index_(0),
       traj_timestamp_(0, 0),
+      waist_(MatrixHomogeneous::Identity()),
       seqid_(0),
       deque_traj_(0) {
   using namespace command;
-- 
2.43.0


From 6ebdd37e564d57514d57cb85f783d1e8bb9cd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:14 +0000
Subject: [PATCH 143/145] fix: the error of FeaturePoint6dRelative follows its
 reference's reference position

---
 include/sot/core/feature-point6d-relative.hh |  3 +++
 src/feature/feature-point6d-relative.cpp     | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/sot/core/feature-point6d-relative.hh b/include/sot/core/feature-point6d-relative.hh
index 260e675..494e4fc 100644
--- a/include/sot/core/feature-point6d-relative.hh
+++ b/include/sot/core/feature-point6d-relative.hh
@@ -87,6 +87,9 @@ class [[deprecated("replaced by FeaturePose")]] SOTFEATUREPOINT6DRELATIVE_EXPORT
   virtual dynamicgraph::Matrix &computeJacobian(dynamicgraph::Matrix & res,
                                                 int time);
 
+  virtual void addDependenciesFromReference(void);
+  virtual void removeDependenciesFromReference(void);
+
   virtual void display(std::ostream & os) const;
 
   void initCommands(void);
diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 8622064..2e86328 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -64,6 +64,20 @@ FeaturePoint6dRelative::FeaturePoint6dRelative(const string &pointName)
   initCommands();
 }
 
+void FeaturePoint6dRelative::addDependenciesFromReference(void) {
+  FeaturePoint6d::addDependenciesFromReference();
+  FeaturePoint6dRelative *sdes6d =
+      dynamic_cast<FeaturePoint6dRelative *>(getReference());
+  if (NULL != sdes6d) errorSOUT.addDependency(sdes6d->positionReferenceSIN);
+}
+
+void FeaturePoint6dRelative::removeDependenciesFromReference(void) {
+  FeaturePoint6d::removeDependenciesFromReference();
+  FeaturePoint6dRelative *sdes6d =
+      dynamic_cast<FeaturePoint6dRelative *>(getReference());
+  if (NULL != sdes6d) errorSOUT.removeDependency(sdes6d->positionReferenceSIN);
+}
+
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From cd5900cd6bfcb8666bd5cca5d954d5a1b78e3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:18 +0000
Subject: [PATCH 144/145] fix: FeaturePoint6dRelative no longer hides that its
 desired feature cannot be read

---
 src/feature/feature-point6d-relative.cpp | 46 +++++++++++-------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 2e86328..179c085 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -141,33 +141,29 @@ Vector &FeaturePoint6dRelative::computeError(Vector &error, int time) {
   pMpref = pMw * wMpref;
 
   MatrixHomogeneous Merr;
-  try {
-    if (isReferenceSet()) {
-      // TODO: Deal with the case of FeaturePoint6dRelative reference without
-      // dcast
-      FeaturePoint6dRelative *sdes6d =
-          dynamic_cast<FeaturePoint6dRelative *>(getReference());
-      if (NULL != sdes6d) {
-        const MatrixHomogeneous &wMp_des = sdes6d->positionSIN(time);
-        const MatrixHomogeneous &wMpref_des =
-            sdes6d->positionReferenceSIN(time);
-        MatrixHomogeneous pMw_des;
-        pMw_des = wMp_des.inverse(Eigen::Affine);
-        MatrixHomogeneous pMpref_des;
-        pMpref_des = pMw_des * wMpref_des;
-        MatrixHomogeneous Minv;
-        Minv = pMpref_des.inverse(Eigen::Affine);
-        Merr = pMpref * Minv;
-      } else {
-        const MatrixHomogeneous &Mref = getReference()->positionSIN(time);
-        MatrixHomogeneous Minv;
-        Minv = Mref.inverse(Eigen::Affine);
-        Merr = pMpref * Minv;
-      }
+  if (isReferenceSet()) {
+    // TODO: Deal with the case of FeaturePoint6dRelative reference without
+    // dcast
+    FeaturePoint6dRelative *sdes6d =
+        dynamic_cast<FeaturePoint6dRelative *>(getReference());
+    if (NULL != sdes6d) {
+      const MatrixHomogeneous &wMp_des = sdes6d->positionSIN(time);
+      const MatrixHomogeneous &wMpref_des =
+          sdes6d->positionReferenceSIN(time);
+      MatrixHomogeneous pMw_des;
+      pMw_des = wMp_des.inverse(Eigen::Affine);
+      MatrixHomogeneous pMpref_des;
+      pMpref_des = pMw_des * wMpref_des;
+      MatrixHomogeneous Minv;
+      Minv = pMpref_des.inverse(Eigen::Affine);
+      Merr = pMpref * Minv;
     } else {
-      Merr = pMpref;
+      const MatrixHomogeneous &Mref = getReference()->positionSIN(time);
+      MatrixHomogeneous Minv;
+      Minv = Mref.inverse(Eigen::Affine);
+      Merr = pMpref * Minv;
     }
-  } catch (...) {
+  } else {
     Merr = pMpref;
   }
 
-- 
2.43.0


From 0aae208279acd803dcc27ffaf95705ee606fd83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:18 +0000
Subject: [PATCH 145/145] fix: keep of a FeaturePoint6dRelative servos at the
 current relative position

---
 include/sot/core/feature-point6d-relative.hh |  2 ++
 include/sot/core/feature-point6d.hh          |  2 +-
 src/feature/feature-point6d-relative.cpp     | 18 ++++++++++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/feature-point6d-relative.hh b/include/sot/core/feature-point6d-relative.hh
index 494e4fc..f16f4da 100644
--- a/include/sot/core/feature-point6d-relative.hh
+++ b/include/sot/core/feature-point6d-relative.hh
@@ -92,6 +92,8 @@ class [[deprecated("replaced by FeaturePose")]] SOTFEATUREPOINT6DRELATIVE_EXPORT
 
   virtual void display(std::ostream & os) const;
 
+  virtual void servoCurrentPosition(void);
+
   void initCommands(void);
   void initSdes(const std::string &featureDesiredName);
 };
diff --git a/include/sot/core/feature-point6d.hh b/include/sot/core/feature-point6d.hh
index 10c65fc..36f0ae5 100644
--- a/include/sot/core/feature-point6d.hh
+++ b/include/sot/core/feature-point6d.hh
@@ -110,7 +110,7 @@ class [[deprecated(
   virtual void display(std::ostream & os) const;
 
  public:
-  void servoCurrentPosition(void);
+  virtual void servoCurrentPosition(void);
 
  private:
   // Intermediate variables for internal computations
diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 179c085..32977e5 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -263,6 +263,24 @@ Vector &FeaturePoint6dRelative::computeErrorDot(Vector &errordot, int time) {
   return errordot;
 }
 
+/* Both positions of the desired feature are needed to servo at the current
+ * relative position.
+ */
+void FeaturePoint6dRelative::servoCurrentPosition(void) {
+  FeaturePoint6d::servoCurrentPosition();
+
+  FeaturePoint6dRelative *sdes6d =
+      dynamic_cast<FeaturePoint6dRelative *>(getReference());
+  if (NULL != sdes6d)
+    sdes6d->positionReferenceSIN = positionReferenceSIN.accessCopy();
+  else {
+    MatrixHomogeneous pMpref;
+    pMpref = positionSIN.accessCopy().inverse(Eigen::Affine) *
+             positionReferenceSIN.accessCopy();
+    getReference()->positionSIN = pMpref;
+  }
+}
+
 static const char *featureNames[] = {"X ", "Y ", "Z ", "RX", "RY", "RZ"};
 void FeaturePoint6dRelative::display(std::ostream &os) const {
   os << "Point6dRelative <" << name << ">: (";
-- 
2.43.0

