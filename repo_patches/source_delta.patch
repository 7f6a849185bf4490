From 0608f7d90c6499ea91266f924e8e4c07fb74376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 01/18] fix: synchronize signals that do not start at the same
 time

The sample at the common begin time was added twice (once before the loop and
once in it), so constructing the result threw; the slope was read through the
wrong iterator, out of bounds. For signals without a common time range,
back() was called on empty vectors.
---
 src/core/signal.cc | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a63f59d..9837e1e 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -122,22 +122,13 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
   auto xv = std::vector<Sample>{};
   auto yv = std::vector<Sample>{};
 
-  // Iterator to the first element where element.time <= begin_time.
-  // If the iterator begins after begin_time, get the prev (if it exists) and
-  // interpolate from it.
+  // Iterator to the first element where element.time >= begin_time. If the element is
+  // timed after begin_time, the sample at begin_time is interpolated in the loop below.
   constexpr auto comp_time = [](const Sample& a, const Sample& b) -> bool {
     return a.time < b.time;
   };
   auto i = std::lower_bound(x->begin(), x->end(), Sample{begin_time, 0.0}, comp_time);
-  if (i->time > begin_time && i != x->begin()) {
-    xv.push_back(Sample{
-        begin_time, std::prev(i)->interpolate(begin_time), std::prev(i)->derivative});
-  }
   auto j = std::lower_bound(y->begin(), y->end(), Sample{begin_time, 0.0}, comp_time);
-  if (j->time > begin_time && j != y->begin()) {
-    yv.push_back(Sample{
-        begin_time, std::prev(j)->interpolate(begin_time), std::prev(i)->derivative});
-  }
 
   // Now, we have to track the timestamps.
   while (i != x->end() && j != y->end()) {
@@ -161,14 +152,6 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
     }
   }
 
-  if (const double t = xv.back().time; yv.back().time < t) {
-    yv.push_back(Sample{xv.back().time, yv.back().interpolate(t)});
-  }
-
-  if (const double t = yv.back().time; xv.back().time < t) {
-    xv.push_back(Sample{yv.back().time, xv.back().interpolate(t)});
-  }
-
   return std::make_tuple(std::make_shared<Signal>(xv), std::make_shared<Signal>(yv));
 }
 
-- 
2.43.0


From b57984fd6d0dfdc2393c9a3ff5252e61a13e99b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 02/18] fix: Signal::at outside the signal and between samples

The domain check could never fail, and the value between two samples was
extrapolated backwards from the later one.
---
 src/core/signal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 9837e1e..03b40df 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -12,7 +12,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->begin_time() > t && this->end_time() < t) {
+  if (this->empty() || this->begin_time() > t || this->end_time() < t) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
@@ -25,7 +25,8 @@ Sample Signal::at(double t) const {
   if (it->time == t) {
     return *it;
   }
-  return Sample{t, it->interpolate(t), it->derivative};
+  const auto prev = std::prev(it); // prev->time < t
+  return Sample{t, prev->interpolate(t), prev->derivative};
 }
 
 void Signal::push_back(Sample sample) {
-- 
2.43.0


From 2bd1c5e1658e85f4b83b64fd67c5fe77f661fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 03/18] fix: Signal::resize of signals with more than two
 samples

Samples before the last were replaced by one at `start` even when they were
inside the range (which threw), and the range was not extended past the end of
the signal.
---
 src/core/signal.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 03b40df..37ea21f 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -70,8 +70,8 @@ SignalPtr Signal::simplify() const {
 SignalPtr Signal::resize(double start, double end, double fill) const {
   auto sig = std::make_shared<Signal>();
 
-  // Check if begin_time > start, then add filled value
-  if (this->begin_time() > start) {
+  // Check if the signal is undefined at start, then add filled value
+  if (this->begin_time() > start || this->end_time() < start) {
     sig->push_back(Sample{start, fill, 0.0});
   }
 
@@ -79,15 +79,17 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   for (auto i = this->begin(); i != this->end(); i++) {
     const double t = i->time;
     // If current sample is timed below start, ...
-    if (std::next(i) != this->end() && std::next(i)->time > start) {
-      // and next sample is timed after `start`, append an intermediate value
-      sig->push_back(Sample{start, i->interpolate(start)});
-    } else if (start <= t && t <= end) {
+    if (t < start) {
+      if (std::next(i) != this->end() && std::next(i)->time > start) {
+        // and next sample is timed after `start`, append an intermediate value
+        sig->push_back(Sample{start, i->interpolate(start)});
+      }
+    } else if (t <= end) {
       // If the samples are within the desired time range, keep the samples.
       sig->push_back(*i);
-    } else if (t > end) {
+    } else {
       // If we are out of the range, ...
-      if (i != this->begin() && std::prev(i)->time < end) {
+      if (start < end && i != this->begin() && std::prev(i)->time < end) {
         // and the previous sample is within the range, interpolate from the last.
         sig->push_back(Sample{end, std::prev(i)->interpolate(end)});
       } else {
@@ -97,6 +99,11 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
     }
   }
 
+  // Check if the signal is undefined at end, then add filled value
+  if (start < end && (this->end_time() < end || this->begin_time() > end)) {
+    sig->push_back(Sample{end, fill, 0.0});
+  }
+
   return sig;
 }
 
-- 
2.43.0


From 9a2434af81bac16f701cd14c7372a63802e472ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 04/18] fix: slope of a signal that is constantly infinite

The robustness of a Boolean constant is an infinite constant signal; its slope
was computed as inf - inf, and values interpolated from it were NaN.
---
 src/core/signal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 37ea21f..f1c0b39 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -43,7 +43,9 @@ void Signal::push_back(Sample sample) {
     const auto v = this->samples.back().value;
     auto& last   = this->samples.back();
 
-    last.derivative = (sample.value - v) / (sample.time - t);
+    // Two equal infinite values have no difference, but the signal is constant there.
+    last.derivative =
+        (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
   }
   this->samples.push_back(Sample{sample.time, sample.value, 0.0});
 }
-- 
2.43.0


From ad12d839e9a85b697da4cd46c5d2d2da5a154ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 05/18] fix: Signal::end_at reads outside of the signal

It dereferenced end(), and went before begin() for a time before the signal.
---
 src/include/signal_tl/signal.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/include/signal_tl/signal.hpp b/src/include/signal_tl/signal.hpp
index 9e1679c..63adaa3 100644
--- a/src/include/signal_tl/signal.hpp
+++ b/src/include/signal_tl/signal.hpp
@@ -149,10 +149,8 @@ struct Signal {
       return this->end();
 
     auto it = this->end();
-    while (it->time > t) it = std::prev(it);
-    // Now we have the pointer to the first element from the back whose .time <= t.
-    // So increment by 1 and return
-    return std::next(it);
+    while (it != this->begin() && std::prev(it)->time > t) it = std::prev(it);
+    return it;
   }
 
   /**
-- 
2.43.0


From 7ff974260048be1c956c5dda65dba1c2022ff915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 06/18] fix: intersection rounded past the next sample

With rounding, the computed intersection can be after the sample that follows
it, and adding that sample then threw.
---
 src/robust_semantics/minmax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index adf3aea..3dc7560 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -41,7 +41,7 @@ SignalPtr compute_minmax_pair(
     if (comp(*i, *j)) {
       if (last_chosen == Chosen::Y) {
         double intercept_time = std::prev(j)->time_intersect(*std::prev(i));
-        if (intercept_time > out->end_time() && intercept_time != i->time) {
+        if (intercept_time > out->end_time() && intercept_time < i->time) {
           out->push_back(
               Sample{intercept_time, std::prev(j)->interpolate(intercept_time)});
         }
@@ -51,7 +51,7 @@ SignalPtr compute_minmax_pair(
     } else {
       if (last_chosen == Chosen::X) {
         double intercept_time = std::prev(i)->time_intersect(*std::prev(j));
-        if (intercept_time > out->end_time() && intercept_time != j->time) {
+        if (intercept_time > out->end_time() && intercept_time < j->time) {
           out->push_back(
               Sample{intercept_time, std::prev(i)->interpolate(intercept_time)});
         }
-- 
2.43.0


From d6c9da11cccdd8cbeb8bd5911cb7ec91c1c5a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 07/18] fix: temporal operators on an empty signal

Operands without a common time range have an empty robustness signal; back()
was called on it.
---
 src/robust_semantics/minmax.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 3dc7560..06ad1ac 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -90,6 +90,9 @@ compute_minmax_pair(const std::vector<SignalPtr>& xs, Compare comp, bool synchro
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
+  if (x->empty()) {
+    return std::make_shared<Signal>();
+  }
   auto opt = x->back();
   auto z   = std::vector<Sample>{};
   z.reserve(2 * x->size());
-- 
2.43.0


From 58aec8325b04db936813ad1195765791f049d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 08/18] fix: until requires its right operand to hold
 eventually

The robustness was that of weak until, and positive even when neither of the
operands ever holds.
---
 src/robust_semantics/classic_robustness.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index d047c5a..c742ed3 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -38,14 +38,12 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
 
   // TODO(anand): This doesn't handle crossing signals well...
 
-  double prev      = TOP;
-  double max_right = BOTTOM;
+  double prev = BOTTOM;
 
   for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
        i != x->rend() && j != y->rend();
        i++, j++) {
-    max_right = std::max(max_right, j->value);
-    prev      = std::max({j->value, std::min(i->value, prev), -max_right});
+    prev = std::max(j->value, std::min(i->value, prev));
     sigstack.push_back({i->time, prev});
   }
   std::reverse(sigstack.begin(), sigstack.end());
-- 
2.43.0


From 4813a2949c8248f470deb9f2449a4bc6d901e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 09/18] fix: robustness of a constant over a trace with a
 single time point

It threw because the same time point was added twice.
---
 src/robust_semantics/classic_robustness.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index c742ed3..4b14ee4 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -104,7 +104,10 @@ SignalPtr compute_robustness(const ast::Expr& phi, const signal::Trace& trace, b
 
 SignalPtr RobustnessOp::operator()(const ast::Const e) const {
   const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);
-  auto samples     = std::vector<Sample>{{min_time, val, 0.0}, {max_time, val, 0.0}};
+  auto samples     = std::vector<Sample>{{min_time, val, 0.0}};
+  if (max_time > min_time) {
+    samples.push_back({max_time, val, 0.0});
+  }
   return std::make_shared<Signal>(samples);
 }
 
-- 
2.43.0


From e2c28a3065c8ed203fe47d1b9d09e07316548d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 10/18] fix: conjunction with false and disjunction with true

When the left operand was already an And (Or), a node with one operand was
built, which threw.
---
 src/core/ast.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index dc66ac7..c7f1c63 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -29,16 +29,15 @@ using utils::overloaded;
 namespace {
 
 Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs); c_ptr && !c_ptr->value) {
+    return *c_ptr;
+  }
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (!e.value) {
-              args = {Expr{e}};
-            }
-          },
+          [](const Const) {}, // true is the identity
           [&args](const AndPtr& e) {
             args.reserve(
                 args.size() +
@@ -50,16 +49,15 @@ Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
 }
 
 Expr OrHelper(const OrPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs); c_ptr && c_ptr->value) {
+    return *c_ptr;
+  }
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (e.value) {
-              args = {Expr{e}};
-            }
-          },
+          [](const Const) {}, // false is the identity
           [&args](const OrPtr& e) {
             args.reserve(
                 args.size() +
-- 
2.43.0


From 8905b7a5f6c4c06464b845067b1ccbf2445d6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 11/18] fix: predicates with the constant first

`(< 5 x)` threw bad_optional_access: the comparison was read after it had been
reset.
---
 src/parser/actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 4db8b4b..f224d20 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -209,7 +209,7 @@ struct action<PredicateTerm> {
 
     if (state.predicate_type == PredicateType::TWO) {
       // For Type TWO, we need to flip the direction of the comparison
-      switch (state.comparison_type.value()) {
+      switch (comparison_type) {
         case ast::ComparisonOp::LT:
           comparison_type = ast::ComparisonOp::GT;
           break;
-- 
2.43.0


From 2d580472fdfff9107c2b6a6c262f748b2628c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 12/18] fix: one expression or command per pair of parentheses

Any number of them was accepted: `(not p q)` parsed as `(not p)` and left a
term behind, `(assert a p assert b q)` made two assertions.
---
 src/parser/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/grammar.hpp b/src/parser/grammar.hpp
index 847a0b6..b90937c 100644
--- a/src/parser/grammar.hpp
+++ b/src/parser/grammar.hpp
@@ -157,7 +157,7 @@ using Expression = peg::sor<
     UntilTerm,
     Term>;
 
-using TermTail = peg::until<RParen, Expression>;
+using TermTail = peg::seq<Expression, RParen>;
 struct Term : peg::sor<peg::if_must<LParen, TermTail>, BooleanLiteral, Identifier> {};
 
 struct Assertion : peg::if_must<KwAssert, Identifier, Term> {};
@@ -189,7 +189,7 @@ struct Command : peg::must<AllowedCommands> {};
 /// We will hard code the top level commands, like `define-formula` and
 /// `assert` as that will allow us to directly reason about them. A command is
 /// essentially intrinsic to the specification language.
-using AnyCommandTail = peg::until<RParen, Command>;
+using AnyCommandTail = peg::seq<Command, RParen>;
 struct AnyCommand : peg::if_must<LParen, AnyCommandTail> {};
 
 struct StatementList : peg::seq<Skip, peg::until<peg::eof, AnyCommand, Skip>> {};
-- 
2.43.0


From d4be9685d357f5d85b71cf4f2298f22df59edbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 13/18] fix: terms in parentheses

`((< x 5))` and `(phi)` match the grammar but threw a logic_error.
---
 src/parser/actions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index f224d20..d349ff2 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -437,6 +437,8 @@ struct action<Term> {
       // Copy the pointer to the formula with the corresponding id
       state.terms.push_back(global_state.formulas.at(state.identifiers.back()));
       state.identifiers.pop_back();
+    } else if (!state.terms.empty()) {
+      // The Term is another Term in parentheses, which is in the vector already.
     } else {
       // Otherwise, it doesn't make sense that there are no results, as this
       // means that the parser failed. This should be unreachable.
-- 
2.43.0


From 292a89f73ce28426e6466f18b3f25f0e82d7242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 14/18] fix: intervals of temporal operators are ignored

Interval::has_value was true exactly for [0, inf), which is what an operator
without an interval has: bounded operators were evaluated and printed as
unbounded ones.
---
 src/include/signal_tl/ast.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 54de00c..c595213 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -190,13 +190,13 @@ struct Interval {
     return start_zero && end_inf;
   }
 
-  /// Check if the interval is [0, inf).
+  /// Check if the interval is not [0, inf).
   ///
   /// NOTE: Purely for backwards compatibility to a version of signal_tl that
   /// dealt with intervals as `std::pair<double, double>`, and the interval was
   /// stored inside an `std::optional` field in the Temporal operators.
   [[nodiscard]] bool has_value() const {
-    return this->is_zero_to_inf();
+    return !this->is_zero_to_inf();
   }
 };
 
-- 
2.43.0


From 27258dcc7ff172e7f554a7cc6a591f975322421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 15/18] fix: intervals without length

They were rejected for doubles, but not for integers and NaN.
---
 src/include/signal_tl/ast.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index c595213..82dfa07 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -156,11 +156,15 @@ struct Interval {
   Num high;
 
   Interval() : low{0.0}, high{std::numeric_limits<double>::infinity()} {};
-  Interval(unsigned long long int a, unsigned long long int b) : low{a}, high{b} {}
+  Interval(unsigned long long int a, unsigned long long int b) : low{a}, high{b} {
+    if (b <= a) {
+      throw std::invalid_argument("Interval [a,b] cannot have b <= a");
+    }
+  }
   Interval(double a, double b) : low{a}, high{b} {
     if (a < 0 || b < 0) {
       throw std::invalid_argument("Interval cannot have negative values");
-    } else if (b <= a) {
+    } else if (!(a < b)) { // also for NaN
       throw std::invalid_argument("Interval [a,b] cannot have b <= a");
     }
   }
-- 
2.43.0


From 28e5905179debba4e6924fd2cdfd09a6169f66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 16/18] fix: text of half-open intervals

---
 src/include/signal_tl/fmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 31136fb..702d439 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -92,7 +92,7 @@ struct fmt::formatter<signal_tl::ast::Always>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "G[{}, int) {}", a, e.arg);
+        return format_to(ctx.out(), "G[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "G[{},{}] {}", a, b, e.arg);
     }
@@ -108,7 +108,7 @@ struct fmt::formatter<signal_tl::ast::Eventually>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "F[{}, inf] {}", a, e.arg);
+        return format_to(ctx.out(), "F[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "F[{},{}] {}", a, b, e.arg);
     }
-- 
2.43.0


From fb6b1451549c6829d1080345eb163d86a519eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 17/18] fix: always and eventually with a bounded interval

The sliding window was emptied and then read, and the value of the sample was
used instead of the optimum of the window. A window as long as the signal was
taken for an unbounded one even when it does not start at 0.
---
 src/robust_semantics/classic_robustness.cc |  4 +-
 src/robust_semantics/minmax.cc             | 53 ++++++++--------------
 2 files changed, 20 insertions(+), 37 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 4b14ee4..8d06ab5 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -172,7 +172,7 @@ SignalPtr RobustnessOp::operator()(const ast::EventuallyPtr& e) const {
     throw std::logic_error("Eventually operator: b < a in interval [a,b]");
   } else if (b - a == 0) {
     return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_max_seq(y);
   } else {
     return compute_max_seq(y, a, b);
@@ -190,7 +190,7 @@ SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
     throw std::logic_error("Always operator: b < a in interval [a,b]");
   } else if (b - a == 0) {
     return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_min_seq(y);
   } else {
     return compute_min_seq(y, a, b);
diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 06ad1ac..4a46fe5 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -1,8 +1,6 @@
 #include "minmax.hpp"
-#include "mono_wedge.h" // for mono_wedge_update
 
 #include <algorithm>  // for max, reverse
-#include <deque>      // for _Deque_iterator, deque, operator-
 #include <functional> // for greater_equal, less_equal
 #include <iterator>   // for prev, next, begin
 #include <limits>     // for numeric_limits
@@ -109,42 +107,27 @@ SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, double a, double b, Compare comp) {
-  const auto width      = b - a;
-  const auto begin_time = x->begin_time();
-  const auto end_time   = x->end_time();
-
-  auto x_ = (a == 0)
-                ? x
-                : x->resize_shift(
-                      begin_time + width, end_time + width, x->back().value, -width);
-
-  auto z       = std::make_shared<Signal>();
-  auto samples = std::deque<Sample>{x_->begin(), x_->end()};
-  auto window  = std::deque<Sample>{};
-
-  auto i = std::begin(samples);
-  // -- Read in values in [0, width)
-  for (; i->time < x->begin_time() + width; i++) {
-    mono_wedge::mono_wedge_update(window, *i, comp);
-  }
-
-  // -- Stream in the rest of the signal.
-  for (; i != samples.end(); i++) {
-    if (i->time - a > window.front().time) {
-      // Add the sample for time M.front + a
-      i = samples.insert(
-          i,
-          Sample{
-              window.front().time + a,
-              std::prev(i)->interpolate(window.front().time + a),
-              0.0});
+  const auto end_time = x->end_time();
+
+  auto z = std::make_shared<Signal>();
+  for (const auto& s : *x) {
+    // The window [t + a, t + b], where the last value of the signal is held.
+    const double window_begin = std::min(s.time + a, end_time);
+    const double window_end   = std::min(s.time + b, end_time);
+
+    // The signal is linear between its samples, so the optimum is at one of them or at
+    // an edge of the window.
+    auto opt        = x->at(window_begin);
+    const auto stop = x->end_at(window_end);
+    for (auto i = x->begin_at(window_begin); i != stop; i++) {
+      opt = (comp(*i, opt)) ? *i : opt;
     }
-    mono_wedge::mono_wedge_update(window, *i, comp);
-    while (window.front().time <= i->time - a) { window.pop_front(); }
-    z->push_back(i->time, i->value);
+    const auto last = x->at(window_end);
+    opt             = (comp(last, opt)) ? last : opt;
+    z->push_back(s.time, opt.value);
   }
 
-  return z->simplify();
+  return z;
 }
 
 SignalPtr
-- 
2.43.0


From de008ca6abe3618094c564ecb9d8ad402ab39d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 18/18] fix: resizing an empty signal to a range that begins or
 ends at 0

---
 src/core/signal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index f1c0b39..703a88b 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -73,7 +73,7 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   auto sig = std::make_shared<Signal>();
 
   // Check if the signal is undefined at start, then add filled value
-  if (this->begin_time() > start || this->end_time() < start) {
+  if (this->empty() || this->begin_time() > start || this->end_time() < start) {
     sig->push_back(Sample{start, fill, 0.0});
   }
 
@@ -102,7 +102,8 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   }
 
   // Check if the signal is undefined at end, then add filled value
-  if (start < end && (this->end_time() < end || this->begin_time() > end)) {
+  if (start < end &&
+      (this->empty() || this->end_time() < end || this->begin_time() > end)) {
     sig->push_back(Sample{end, fill, 0.0});
   }
 
-- 
2.43.0

