From 6f74942614a6a4db54917f8307b8c8393b17f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 01/19] fix: size the line search's error buffer for the
 residuals the problem holds now

error_buffer_ was sized once, in the constructor. Adding a larger cost to the problem before
the next Solve() made the line search write past its end.
---
 source/nonlinear.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a72e6cc..a8b0eff 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -279,12 +279,20 @@ bool ConstrainedNonlinearLeastSquares::QPWasIndefinite(
 Errors ConstrainedNonlinearLeastSquares::EvaluateNonlinearErrors(const Eigen::VectorXd& vars) {
   MINI_OPT_FUNCTION_TRACE();
   Errors output_errors{};
+  // The problem may have been given larger residuals since this solver was constructed.
+  const auto reserve_rows = [this](const Eigen::Index rows) {
+    if (error_buffer_.rows() < rows) {
+      error_buffer_.resize(rows);
+    }
+  };
   for (const Residual& cost : p_->costs) {
+    reserve_rows(cost.Dimension());
     const auto err_out = error_buffer_.head(cost.Dimension());
     cost.ErrorVector(vars, err_out);
     output_errors.f += 0.5 * err_out.squaredNorm();
   }
   for (const Residual& eq : p_->equality_constraints) {
+    reserve_rows(eq.Dimension());
     const auto err_out = error_buffer_.head(eq.Dimension());
     eq.ErrorVector(vars, err_out);
     output_errors.equality += err_out.lpNorm<1>();
-- 
2.43.0


From 15f2cd16aaa8d94466818c11cb2d379a92515788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 02/19] fix: do not report a first-order point when the
 constraint derivative is NaN

DirectionalDerivatives::LInfinity() returned |d_f| when d_equality was NaN, so a non-finite
equality Jacobian could end a solve with SATISFIED_FIRST_ORDER_TOL.
---
 include/mini_opt/structs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mini_opt/structs.hpp b/include/mini_opt/structs.hpp
index 8d224c1..34c8d64 100644
--- a/include/mini_opt/structs.hpp
+++ b/include/mini_opt/structs.hpp
@@ -196,9 +196,9 @@ struct DirectionalDerivatives {
   // Total error after applying penalty to the equality constraints.
   constexpr double Total(double penalty) const noexcept { return d_f + penalty * d_equality; }
 
-  // L-infinity norm
+  // L-infinity norm. NaN if either derivative is NaN (std::max would drop a NaN in `d_equality`).
   constexpr double LInfinity() const noexcept {
-    return std::max(std::abs(d_f), std::abs(d_equality));
+    return d_equality != d_equality ? d_equality : std::max(std::abs(d_f), std::abs(d_equality));
   }
 };
 
-- 
2.43.0


From 2a95592456700b78a58df6765ae07c259fe3a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 03/19] fix: hold the collector's mutex while the trace is
 formatted

---
 source/tracing.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5015fb7..f5d6bd6 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -107,7 +107,9 @@ void trace_collector::submit_event(trace_event event) {
 trace_collector_impl& trace_collector::impl() noexcept { return *impl_; }
 
 std::string trace_collector::get_trace_json() {
-  return fmt::format(json_object_template, fmt::join(impl_->events, ",\n    "));
+  auto& self = impl();
+  std::lock_guard guard{self.mutex};
+  return fmt::format(json_object_template, fmt::join(self.events, ",\n    "));
 }
 
 template <typename U, typename T>
-- 
2.43.0


From 267ce82498d1275b235f50617aba550dc7892620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 04/19] fix: measure traced scopes on the monotonic clock

---
 include/mini_opt/tracing.hpp | 4 ++--
 source/tracing.cc            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mini_opt/tracing.hpp b/include/mini_opt/tracing.hpp
index d308f17..a78c97f 100644
--- a/include/mini_opt/tracing.hpp
+++ b/include/mini_opt/tracing.hpp
@@ -68,7 +68,7 @@ class scoped_trace {
  public:
   // Note we do not own `name`. It is assumed to be a global string literal.
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::high_resolution_clock::now()) {}
+      : name_(name), start_(std::chrono::steady_clock::now()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -79,7 +79,7 @@ class scoped_trace {
 
  private:
   std::string_view name_;
-  std::chrono::high_resolution_clock::time_point start_;
+  std::chrono::steady_clock::time_point start_;
 };
 
 }  // namespace mini_opt
diff --git a/source/tracing.cc b/source/tracing.cc
index f5d6bd6..538a42e 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -118,7 +118,7 @@ static auto cast_time(const T& dur) {
 }
 
 scoped_trace::~scoped_trace() {
-  const auto end = std::chrono::high_resolution_clock::now();
+  const auto end = std::chrono::steady_clock::now();
   if (std::uncaught_exceptions() > 0) {
     return;
   }
-- 
2.43.0


From a5a0dddcbe115d56aed553d8617546529e61a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 05/19] fix: escape the names of trace events in the JSON
 output

---
 source/tracing.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 538a42e..4f54da1 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -5,6 +5,7 @@
 
 #include <deque>
 #include <mutex>
+#include <string>
 
 #include <fmt/core.h>
 #include <fmt/ranges.h>
@@ -25,6 +26,27 @@
 
 #include "mini_opt/assertions.hpp"
 
+namespace mini_opt {
+
+// Escape a string such that it can be placed inside a JSON string literal.
+static std::string escape_json(const std::string_view str) {
+  std::string result;
+  result.reserve(str.size());
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      result.push_back('\\');
+      result.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      result += fmt::format("\\u{:04x}", static_cast<unsigned int>(c));
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result;
+}
+
+}  // namespace mini_opt
+
 // Format mini_opt::trace_event to JSON.
 template <>
 struct fmt::formatter<mini_opt::trace_event> {
@@ -35,7 +57,7 @@ struct fmt::formatter<mini_opt::trace_event> {
     constexpr std::string_view phase = "X";  //  Complete event.
     constexpr std::string_view fmt_template =
         R"json({{ "name": "{name}", "cat": "", "ph": "{ph}", "ts": {ts}, "pid": {pid}, "tid": {tid}, "dur": {dur} }})json";
-    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", event.name),
+    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", mini_opt::escape_json(event.name)),
                           fmt::arg("ph", phase), fmt::arg("ts", event.ts),
                           fmt::arg("pid", event.pid), fmt::arg("tid", event.tid),
                           fmt::arg("dur", event.dur_ns / 1000));
-- 
2.43.0


From 5278ae9fea0e8cf4139646e8d3ae3b897f5d613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 06/19] fix: record scopes that end normally while another
 exception is in flight

---
 include/mini_opt/tracing.hpp | 7 ++++++-
 source/tracing.cc            | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mini_opt/tracing.hpp b/include/mini_opt/tracing.hpp
index a78c97f..e2c73d1 100644
--- a/include/mini_opt/tracing.hpp
+++ b/include/mini_opt/tracing.hpp
@@ -2,6 +2,7 @@
 // I copy-pasta'd this from the wrenfold project.
 #pragma once
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <string_view>
 
@@ -68,7 +69,9 @@ class scoped_trace {
  public:
   // Note we do not own `name`. It is assumed to be a global string literal.
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::steady_clock::now()) {}
+      : name_(name),
+        start_(std::chrono::steady_clock::now()),
+        uncaught_exceptions_(std::uncaught_exceptions()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -80,6 +83,8 @@ class scoped_trace {
  private:
   std::string_view name_;
   std::chrono::steady_clock::time_point start_;
+  // Number of exceptions in flight when the scope was entered.
+  int uncaught_exceptions_;
 };
 
 }  // namespace mini_opt
diff --git a/source/tracing.cc b/source/tracing.cc
index 4f54da1..8b2d7c4 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -141,7 +141,7 @@ static auto cast_time(const T& dur) {
 
 scoped_trace::~scoped_trace() {
   const auto end = std::chrono::steady_clock::now();
-  if (std::uncaught_exceptions() > 0) {
+  if (std::uncaught_exceptions() > uncaught_exceptions_) {
     return;
   }
   if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
-- 
2.43.0


From 11664b860f85b77686b88433c622ecb6b104f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 07/19] fix: keep the trace collector alive until the process
 ends

---
 source/tracing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 8b2d7c4..d6d7a6f 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -97,8 +97,9 @@ struct trace_collector_impl {
 };
 
 trace_collector* trace_collector::get_instance() {
-  static trace_collector global_collector{};
-  return &global_collector;
+  // Never destroyed, because scopes may still end while static objects are being destroyed.
+  static trace_collector* const global_collector = new trace_collector();
+  return global_collector;
 }
 
 inline constexpr std::string_view json_object_template = R"json(
-- 
2.43.0


From 5d5a8940cc6941432e2b0e0dbcba9fa875e9c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 08/19] fix: lose a trace event rather than terminate when
 memory runs out

---
 source/tracing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index d6d7a6f..6f86444 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -5,6 +5,7 @@
 
 #include <deque>
 #include <mutex>
+#include <new>
 #include <string>
 
 #include <fmt/core.h>
@@ -140,7 +141,7 @@ static auto cast_time(const T& dur) {
   return std::chrono::duration_cast<U>(dur).count();
 }
 
-scoped_trace::~scoped_trace() {
+scoped_trace::~scoped_trace() try {
   const auto end = std::chrono::steady_clock::now();
   if (std::uncaught_exceptions() > uncaught_exceptions_) {
     return;
@@ -154,6 +155,9 @@ scoped_trace::~scoped_trace() {
     const thread_local pid_and_tid ids{};
     collector->submit_event(trace_event{name_, start_micros, ids.pid, ids.tid, duration_nanos});
   }
+} catch (const std::bad_alloc&) {
+  // No memory for the event: it is lost, because a destructor may not throw.
+  return;
 }
 
 }  // namespace mini_opt
-- 
2.43.0


From d53a2017ea1909ff36b926781feaa55b583a3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 09/19] fix: store non-finite numbers in a form that reads back

---
 source/serialization.cc | 48 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index ba84351..a9b6aa9 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -3,6 +3,9 @@
 
 #ifdef MINI_OPT_SERIALIZATION
 
+#include <cmath>
+#include <limits>
+
 #include <nlohmann/json.hpp>
 
 using json = nlohmann::json;
@@ -123,7 +126,49 @@ struct adl_serializer<NLSIteration> {
   }
 };
 
-NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
+// JSON has no representation for NaN and infinities (nlohmann writes them as null, which does not
+// parse back as a number), so numbers that are not finite are stored as strings instead.
+static void encode_non_finite(json& j) {
+  if (j.is_structured()) {
+    for (json& child : j) {
+      encode_non_finite(child);
+    }
+  } else if (j.is_number_float()) {
+    const double value = j.get<double>();
+    if (std::isnan(value)) {
+      j = "NaN";
+    } else if (std::isinf(value)) {
+      j = value > 0 ? "Infinity" : "-Infinity";
+    }
+  }
+}
+
+// Inverse of `encode_non_finite`. Levels nested deeper than anything we write are not visited.
+static json decode_non_finite(const json& j, const int max_depth = 16) {
+  if (j.is_structured()) {
+    json result = j.is_object() ? json::object() : json::array();
+    if (max_depth > 0) {
+      for (auto it = j.begin(); it != j.end(); ++it) {
+        if (j.is_object()) {
+          result[it.key()] = decode_non_finite(it.value(), max_depth - 1);
+        } else {
+          result.push_back(decode_non_finite(it.value(), max_depth - 1));
+        }
+      }
+    }
+    return result;
+  } else if (j == "NaN") {
+    return std::numeric_limits<double>::quiet_NaN();
+  } else if (j == "Infinity") {
+    return std::numeric_limits<double>::infinity();
+  } else if (j == "-Infinity") {
+    return -std::numeric_limits<double>::infinity();
+  }
+  return j;
+}
+
+NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& input) {
+  const json j = decode_non_finite(input);
   return NLSSolverOutputs(j["termination_state"].get<NLSTerminationState>(),
                           j["iterations"].get<std::vector<NLSIteration>>());
 }
@@ -131,6 +176,7 @@ NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j
 void adl_serializer<NLSSolverOutputs, void>::to_json(json& j, const NLSSolverOutputs& outputs) {
   j["termination_state"] = outputs.termination_state;
   j["iterations"] = outputs.iterations;
+  encode_non_finite(j);
 }
 
 }  // namespace nlohmann
-- 
2.43.0


From d64ca9189dc4f4f211dfffa63dfefdcff29d6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 10/19] fix: reject stored results that do not say what they
 should

---
 source/serialization.cc | 63 ++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index a9b6aa9..26150a5 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -5,6 +5,8 @@
 
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <utility>
 
 #include <nlohmann/json.hpp>
 
@@ -32,11 +34,35 @@ static void from_json(const json& j, std::optional<T>& x) {
   }
 }
 
-NLOHMANN_JSON_SERIALIZE_ENUM(OptimizerState,
+// Like NLOHMANN_JSON_SERIALIZE_ENUM, except that values missing from the table are rejected, rather
+// than being mapped to the first entry.
+#define MINI_OPT_JSON_SERIALIZE_ENUM(ENUM_TYPE, ...)                                   \
+  static void to_json(json& j, const ENUM_TYPE& e) {                                   \
+    static const std::pair<ENUM_TYPE, const char*> table[] = __VA_ARGS__;              \
+    for (const auto& [value, name] : table) {                                          \
+      if (value == e) {                                                                \
+        j = name;                                                                      \
+        return;                                                                        \
+      }                                                                                \
+    }                                                                                  \
+    throw std::invalid_argument("Value of " #ENUM_TYPE " has no JSON representation"); \
+  }                                                                                    \
+  static void from_json(const json& j, ENUM_TYPE& e) {                                 \
+    static const std::pair<ENUM_TYPE, const char*> table[] = __VA_ARGS__;              \
+    for (const auto& [value, name] : table) {                                          \
+      if (j == name) {                                                                 \
+        e = value;                                                                     \
+        return;                                                                        \
+      }                                                                                \
+    }                                                                                  \
+    throw std::invalid_argument("JSON value is not a member of " #ENUM_TYPE);          \
+  }
+
+MINI_OPT_JSON_SERIALIZE_ENUM(OptimizerState,
                              {{OptimizerState::ATTEMPTING_RESTORE_LM, "ATTEMPTING_RESTORE_LM"},
                               {OptimizerState::NOMINAL, "NOMINAL"}});
 
-NLOHMANN_JSON_SERIALIZE_ENUM(
+MINI_OPT_JSON_SERIALIZE_ENUM(
     StepSizeSelectionResult,
     {{StepSizeSelectionResult::SUCCESS, "SUCCESS"},
      {StepSizeSelectionResult::MAX_ITERATIONS, "MAX_ITERATIONS"},
@@ -45,7 +71,7 @@ NLOHMANN_JSON_SERIALIZE_ENUM(
      {StepSizeSelectionResult::FAILURE_NON_FINITE_COST, "FAILURE_NON_FINITE_COST"},
      {StepSizeSelectionResult::FAILURE_INVALID_ALPHA, "FAILURE_INVALID_ALPHA"}});
 
-NLOHMANN_JSON_SERIALIZE_ENUM(
+MINI_OPT_JSON_SERIALIZE_ENUM(
     NLSTerminationState,
     {{NLSTerminationState::MAX_ITERATIONS, "MAX_ITERATIONS"},
      {NLSTerminationState::SATISFIED_ABSOLUTE_TOL, "SATISFIED_ABSOLUTE_TOL"},
@@ -55,12 +81,12 @@ NLOHMANN_JSON_SERIALIZE_ENUM(
      {NLSTerminationState::QP_INDEFINITE, "QP_INDEFINITE"},
      {NLSTerminationState::USER_CALLBACK, "USER_CALLBACK"}});
 
-NLOHMANN_JSON_SERIALIZE_ENUM(QPInteriorPointTerminationState,
+MINI_OPT_JSON_SERIALIZE_ENUM(QPInteriorPointTerminationState,
                              {{QPInteriorPointTerminationState::MAX_ITERATIONS, "MAX_ITERATIONS"},
                               {QPInteriorPointTerminationState::SATISFIED_KKT_TOL,
                                "SATISFIED_KKT_TOL"}});
 
-NLOHMANN_JSON_SERIALIZE_ENUM(QPNullSpaceTerminationState,
+MINI_OPT_JSON_SERIALIZE_ENUM(QPNullSpaceTerminationState,
                              {{QPNullSpaceTerminationState::SUCCESS, "SUCCESS"},
                               {QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE,
                                "NOT_POSITIVE_DEFINITE"}});
@@ -97,19 +123,28 @@ static void from_json(
 namespace nlohmann {
 using namespace mini_opt;
 
+// Read an integer. The built-in conversion also accepts booleans, and truncates other numbers.
+static int get_int(const json& j) {
+  if (j.is_number_integer() && j >= std::numeric_limits<int>::min() &&
+      j <= std::numeric_limits<int>::max()) {
+    return j.get<int>();
+  }
+  throw std::invalid_argument("JSON value is not an int");
+}
+
 // NLSIteration is not default constructible - we define a manual serializer for it here.
 template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        j["lambda"].get<double>(), j["errors_initial"].get<Errors>(),
-        j["qp_outputs"]
+        get_int(j.at("iteration")), j.at("optimizer_state").get<OptimizerState>(),
+        j.at("lambda").get<double>(), j.at("errors_initial").get<Errors>(),
+        j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
-        j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), j["penalty"].get<double>(),
-        j["step_result"].get<StepSizeSelectionResult>(),
-        j["line_search_steps"].get<std::vector<LineSearchStep>>());
+        j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
+        j.at("directional_derivatives").get<DirectionalDerivatives>(),
+        j.at("penalty").get<double>(), j.at("step_result").get<StepSizeSelectionResult>(),
+        j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
   static void to_json(json& j, const NLSIteration& iter) {
@@ -169,8 +204,8 @@ static json decode_non_finite(const json& j, const int max_depth = 16) {
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& input) {
   const json j = decode_non_finite(input);
-  return NLSSolverOutputs(j["termination_state"].get<NLSTerminationState>(),
-                          j["iterations"].get<std::vector<NLSIteration>>());
+  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+                          j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
 void adl_serializer<NLSSolverOutputs, void>::to_json(json& j, const NLSSolverOutputs& outputs) {
-- 
2.43.0


From 58cf78f2da5d5968e5ceb228a57673088ea60538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 11/19] fix: leave the QP solver set up as it was when Setup
 rejects a problem

---
 source/qp.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 58efe5e..8883810 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -20,19 +20,27 @@ QPInteriorPointSolver::QPInteriorPointSolver(const QP* const problem) { Setup(pr
 void QPInteriorPointSolver::Setup(const QP* const problem) {
   F_ASSERT(problem != nullptr, "Must pass a non-null problem");
 
-  p_ = problem;
-  F_ASSERT_EQ(p_->G.rows(), p_->G.cols(), "G must be square");
-  F_ASSERT_EQ(p_->G.rows(), p_->c.rows(), "Dims of G and c must match");
-  F_ASSERT_EQ(p_->A_eq.rows(), p_->b_eq.rows(), "Rows of A_e and b_e must match");
+  // Check everything before touching any member, so that a rejected problem has no effect.
+  F_ASSERT_EQ(problem->G.rows(), problem->G.cols(), "G must be square");
+  F_ASSERT_EQ(problem->G.rows(), problem->c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(problem->A_eq.rows(), problem->b_eq.rows(), "Rows of A_e and b_e must match");
 
   // If equality constraints were specified, we must be able to multiply A*x
-  if (p_->A_eq.size() > 0) {
-    F_ASSERT_EQ(p_->A_eq.cols(), p_->G.rows());
+  if (problem->A_eq.size() > 0) {
+    F_ASSERT_EQ(problem->A_eq.cols(), problem->G.rows());
   } else {
-    F_ASSERT_EQ(p_->A_eq.rows(), 0);
-    F_ASSERT_EQ(p_->b_eq.rows(), 0);
+    F_ASSERT_EQ(problem->A_eq.rows(), 0);
+    F_ASSERT_EQ(problem->b_eq.rows(), 0);
   }
 
+  // check indices up front
+  for (const LinearInequalityConstraint& c : problem->constraints) {
+    F_ASSERT_LT(c.variable, static_cast<int>(problem->G.rows()),
+                "Constraint index is out of bounds");
+  }
+
+  p_ = problem;
+
   // Order is [slacks (s), equality multipliers(y), inequality multipliers (lambda)]
   dims_.N = static_cast<int>(p_->G.rows());
   dims_.M = static_cast<int>(p_->constraints.size());
@@ -65,11 +73,6 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
   H_.setConstant(nan);
   H_inv_.setConstant(nan);
 #endif
-
-  // check indices up front
-  for (const LinearInequalityConstraint& c : p_->constraints) {
-    F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
-  }
 }
 
 // Assert params are in valid range.
-- 
2.43.0


From 1cedff32f3877b8e7c86a2df847c49f07bb53b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 12/19] fix: reject inequality constraints on negative variable
 indices

---
 include/mini_opt/qp.hpp | 1 +
 source/qp.cc            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mini_opt/qp.hpp b/include/mini_opt/qp.hpp
index 6f3e06c..7b799aa 100644
--- a/include/mini_opt/qp.hpp
+++ b/include/mini_opt/qp.hpp
@@ -60,6 +60,7 @@ struct LinearInequalityConstraint {
 
   // Version of shift that takes vector.
   LinearInequalityConstraint ShiftTo(const Eigen::VectorXd& x) const {
+    F_ASSERT_GE(variable, 0);
     F_ASSERT_LT(variable, x.rows());
     return ShiftTo(x[variable]);
   }
diff --git a/source/qp.cc b/source/qp.cc
index 8883810..dc8e4d2 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -35,6 +35,7 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
 
   // check indices up front
   for (const LinearInequalityConstraint& c : problem->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
     F_ASSERT_LT(c.variable, static_cast<int>(problem->G.rows()),
                 "Constraint index is out of bounds");
   }
-- 
2.43.0


From d4e97fe595571acd9dd0f497cc72020014385b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 13/19] fix: reject QPs with mismatched dimensions in the
 null-space solver

---
 source/qp.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index dc8e4d2..4193173 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -683,6 +683,9 @@ void QPInteriorPointSolver::BuildFullSystem(Eigen::MatrixXd* const H,
 QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   F_ASSERT_GT(p.A_eq.rows(), 0, "Problem must have at least one equality constraint");
   F_ASSERT_EQ(p.A_eq.rows(), p.b_eq.rows());
+  F_ASSERT_EQ(p.G.rows(), p.G.cols(), "G must be square");
+  F_ASSERT_EQ(p.G.rows(), p.c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(p.A_eq.cols(), p.G.rows());
 
   const int num_equality_constraints = static_cast<int>(p.A_eq.rows());
   const int num_params = static_cast<int>(p.A_eq.cols());
-- 
2.43.0


From 2e41de4f3bc6db298c73fb687be9205eeb72a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 14/19] fix: reject initial variables of the wrong dimension

---
 source/nonlinear.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a8b0eff..a2ecbec 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -77,6 +77,7 @@ NLSSolverOutputs ConstrainedNonlinearLeastSquares::Solve(const Params& params,
   MINI_OPT_FUNCTION_TRACE();
   F_ASSERT(p_ != nullptr, "Must have a valid problem");
   CheckParams(params);
+  F_ASSERT_EQ(variables.rows(), p_->dimension, "Wrong number of variables");
   variables_ = variables;
   state_ = OptimizerState::NOMINAL;
 
-- 
2.43.0


From 3bd35ea1ae828c8170f5d1d3209d237742592604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 15/19] fix: reject variables of the wrong dimension in the QP
 solver

---
 source/qp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index 4193173..4969cdb 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -222,7 +222,10 @@ VectorBlock QPInteriorPointSolver::y_block() { return YBlock(dims_, variables_);
 
 VectorBlock QPInteriorPointSolver::z_block() { return ZBlock(dims_, variables_); }
 
-void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) { variables_ = v; }
+void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) {
+  F_ASSERT_EQ(v.rows(), dims_.N + dims_.M * 2 + dims_.K, "Wrong number of variables");
+  variables_ = v;
+}
 
 const QP& QPInteriorPointSolver::problem() const {
   F_ASSERT(p_, "Cannot call unless initialized");
-- 
2.43.0


From 685fff0a09a7ff5f2a89ebebd3499eb4511afa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:45 +0000
Subject: [PATCH 16/19] fix: solve for the independent equality constraints
 only in the null-space solver

---
 source/qp.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 4969cdb..5416327 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -707,13 +707,13 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const auto Q1 = Q_.leftCols(rank);
   const auto Q2 = Q_.rightCols(Q_.cols() - rank);
 
-  // The non-zero rows of R:
-  const auto R_upper = R.topRows(num_equality_constraints).template triangularView<Eigen::Upper>();
+  // The part of R that belongs to a maximal set of independent constraints:
+  const auto R_upper = R.topLeftCorner(rank, rank).template triangularView<Eigen::Upper>();
 
   // Compute u = Q1 * (R1^T)^-1 * (P^-1) * b_eq
   // `u` is a particular solution to the equality constrained system: A_eq * x + b = 0
   permuted_rhs_.noalias() = P.transpose() * -p.b_eq;
-  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_);
+  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_.head(rank));
   F_ASSERT_EQ(num_params, u_.rows());
 
   // Compute the reduced hessian by projecting `G` into null(A_eq)
-- 
2.43.0


From 9ab02a64d80e0ab3a35a74437c3c79638fb53a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:45 +0000
Subject: [PATCH 17/19] fix: do not mistake round-off for independent equality
 constraints in the null-space solver

---
 source/qp.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index 5416327..31a77a1 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -694,7 +694,11 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const int num_params = static_cast<int>(p.A_eq.cols());
 
   // Compute [Q R] factorization of A_eq^T
-  const auto QR = p.A_eq.transpose().colPivHouseholderQr();
+  auto QR = p.A_eq.transpose().colPivHouseholderQr();
+
+  // Round-off leaves pivots of a few ulps for constraints that depend on others, do not count those.
+  QR.setThreshold(10 * std::numeric_limits<double>::epsilon() *
+                  std::max(num_equality_constraints, num_params));
 
   Q_ = QR.matrixQ();
   const auto& R = QR.matrixR();
-- 
2.43.0


From 05ab5b8dfc6bdd279e89dfbc25c351f37e249927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 18/19] fix: add up the derivatives of a variable that a
 residual names twice

---
 include/mini_opt/residual.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/mini_opt/residual.hpp b/include/mini_opt/residual.hpp
index 91a099a..091eb47 100644
--- a/include/mini_opt/residual.hpp
+++ b/include/mini_opt/residual.hpp
@@ -1,5 +1,6 @@
 // Copyright 2021 Gareth Cross
 #pragma once
+#include <algorithm>
 #include <array>
 #include <memory>
 #include <vector>
@@ -218,6 +219,10 @@ double Residual::Model<ResidualDim, ParamsDim, F>::UpdateHessian(const Eigen::Ve
       } else {
         H->operator()(col_global, row_global) += JtT;
       }
+      // a variable that appears twice in `index_` receives both halves of the cross term
+      if (col_local != row_local && col_global == row_global) {
+        H->operator()(row_global, col_global) += JtT;
+      }
     }
     // Also update the right-hand side vector `b`.
     b->operator()(row_global) += J.col(row_local).dot(r);
@@ -245,7 +250,13 @@ void Residual::Model<ResidualDim, ParamsDim, F>::UpdateJacobian(
   for (int col_local = 0; col_local < static_cast<int>(index_.size()); ++col_local) {
     const int col_global = index_[col_local];
     F_ASSERT_LT(col_global, J_out.cols(), "Index exceeds the size of the Jacobian");
-    J_out.col(col_global).noalias() = J.col(col_local);
+    const auto end = index_.begin() + col_local;
+    if (std::find(index_.begin(), end, col_global) == end) {
+      J_out.col(col_global).noalias() = J.col(col_local);
+    } else {
+      // a variable that appears twice in `index_` receives the sum
+      J_out.col(col_global) += J.col(col_local);
+    }
   }
 }
 
-- 
2.43.0


From 694f5a78256988da49c0247c2da0030762a5e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:49 +0000
Subject: [PATCH 19/19] fix: check the indices of a residual before any of its
 contribution is written

---
 include/mini_opt/residual.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mini_opt/residual.hpp b/include/mini_opt/residual.hpp
index 091eb47..773cf12 100644
--- a/include/mini_opt/residual.hpp
+++ b/include/mini_opt/residual.hpp
@@ -192,6 +192,11 @@ double Residual::Model<ResidualDim, ParamsDim, F>::UpdateHessian(const Eigen::Ve
   F_ASSERT_EQ(H->rows(), H->cols());
   F_ASSERT_EQ(b->rows(), H->rows());
 
+  // Check the mapping into the full system before anything is changed.
+  for (const int global : index_) {
+    F_ASSERT_LT(global, H->rows(), "Index exceeds bounds of hessian");
+  }
+
   // Collect params.
   const ParamType relevant_params = GatherParams(params);
 
@@ -207,9 +212,7 @@ double Residual::Model<ResidualDim, ParamsDim, F>::UpdateHessian(const Eigen::Ve
   for (int row_local = 0; row_local < N; ++row_local) {
     // get index mapping into the full system
     const int row_global = index_[row_local];
-    F_ASSERT_LT(row_global, H->rows(), "Index exceeds bounds of hessian");
     for (int col_local = 0; col_local <= row_local; ++col_local) {
-      // because col_local <= row_local, we already checked this global index
       const int col_global = index_[col_local];
       // each param is a single column, so we can just do dot product
       const double JtT = J.col(row_local).dot(J.col(col_local));
@@ -237,6 +240,11 @@ void Residual::Model<ResidualDim, ParamsDim, F>::UpdateJacobian(
     Eigen::VectorBlock<Eigen::VectorXd> b_out) const {
   F_ASSERT_EQ(ResidualDim, b_out.rows());
   F_ASSERT_EQ(ResidualDim, J_out.rows());
+  // Check the mapping into the full system before anything is changed.
+  for (const int global : index_) {
+    F_ASSERT_LT(global, J_out.cols(), "Index exceeds the size of the Jacobian");
+  }
+
   // Collect params.
   const ParamType relevant_params = GatherParams(params);
 
@@ -249,7 +257,6 @@ void Residual::Model<ResidualDim, ParamsDim, F>::UpdateJacobian(
 
   for (int col_local = 0; col_local < static_cast<int>(index_.size()); ++col_local) {
     const int col_global = index_[col_local];
-    F_ASSERT_LT(col_global, J_out.cols(), "Index exceeds the size of the Jacobian");
     const auto end = index_.begin() + col_local;
     if (std::find(index_.begin(), end, col_global) == end) {
       J_out.col(col_global).noalias() = J.col(col_local);
-- 
2.43.0

