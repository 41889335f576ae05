From c903882644b49bd2b521d5121153719111f95f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:39 +0000
Subject: [PATCH 01/73] fix: evaluating an expression never traps or overflows

x / 0, x % 0 and INT64_MIN / -1 raised SIGFPE inside the simulator process, and
signed overflow in + - * and unary - was undefined.
---
 src/eval.cc | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 5a783a1..e6c4999 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -376,6 +376,23 @@ Expr* parse(const std::string& value, DebugExpression& debug_expression) {
     }
 }
 
+// wrap around on overflow, since overflowing a signed integer is undefined
+static ExpressionType wrap(uint64_t value) { return static_cast<ExpressionType>(value); }
+static uint64_t bits(ExpressionType value) { return static_cast<uint64_t>(value); }
+
+// the value of an expression comes from the design. it should never trap the simulator: dividing by
+// zero is 0 and the only overflowing division (INT64_MIN / -1) wraps around
+static ExpressionType divide(ExpressionType left, ExpressionType right) {
+    if (right == 0) return 0;
+    if (right == -1) return wrap(0 - bits(left));
+    return left / right;
+}
+
+static ExpressionType modulo(ExpressionType left, ExpressionType right) {
+    if (right == 0 || right == -1) return 0;
+    return left % right;
+}
+
 ExpressionType Expr::eval() const {
     switch (op) {
         case Operator::None:
@@ -383,17 +400,17 @@ ExpressionType Expr::eval() const {
         case Operator::UAdd:
             return unary->eval();
         case Operator::UMinus:
-            return -unary->eval();
+            return wrap(0 - bits(unary->eval()));
         case Operator::Add:
-            return left->eval() + right->eval();
+            return wrap(bits(left->eval()) + bits(right->eval()));
         case Operator::Minus:
-            return left->eval() - right->eval();
+            return wrap(bits(left->eval()) - bits(right->eval()));
         case Operator::Multiply:
-            return left->eval() * right->eval();
+            return wrap(bits(left->eval()) * bits(right->eval()));
         case Operator::Divide:
-            return left->eval() / right->eval();
+            return divide(left->eval(), right->eval());
         case Operator::Mod:
-            return left->eval() % right->eval();
+            return modulo(left->eval(), right->eval());
         case Operator::Eq:
             return left->eval() == right->eval();
         case Operator::Neq:
-- 
2.43.0


From 9569e3a51c6ba57eaf23c97831110a8dabcf96b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:39 +0000
Subject: [PATCH 02/73] fix: hex literals with bit 63 set keep their bit
 pattern

64'hffffffffffffffff was read as INT64_MAX, so a comparison against an all-ones
64-bit signal never matched.
---
 src/eval.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index e6c4999..ec2bb64 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -238,9 +238,10 @@ struct action<hex_integer> {
         auto pos = value.find_first_of('\'');
         std::stringstream ss;
         ss << std::hex << value.substr(pos + 2);
-        ExpressionType v;
+        // read as unsigned, otherwise a 64-bit literal with the top bit set saturates
+        uint64_t v;
         ss >> v;
-        expr->set_value(v);
+        expr->set_value(static_cast<ExpressionType>(v));
         state.push(expr);
     }
 };
-- 
2.43.0


From 2c0cfb5ecdb3cf604b486f83f8c6d37926d565b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:39 +0000
Subject: [PATCH 03/73] fix: values of names that an expression does not use
 are ignored

eval() threw std::out_of_range for any name given to set_value that does not occur
in the expression.
---
 src/eval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index ec2bb64..ec2f3e8 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -469,7 +469,8 @@ int64_t DebugExpression::eval() const {
     if (!root_) [[unlikely]]
         return 0;
     for (auto const& [name, value] : values_) {
-        symbols_.at(name)->set_value(value);
+        auto const symbol = symbols_.find(name);
+        if (symbol != symbols_.end()) symbol->second->set_value(value);
     }
     return root_->eval();
 }
-- 
2.43.0


From bfe57529bc76e92ae146192ccb6445d759a95be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 04/73] fix: an unfinished bracket no longer unbalances the
 expression parser

---
 src/eval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index ec2f3e8..47791ff 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -75,7 +75,8 @@ struct close_bracket : seq<star<space>, one<')'>> {};
 
 struct expression;
 struct unary_expression;
-struct bracketed : seq<open_bracket, expression, close_bracket> {};
+// an unfinished bracket is an error right away. backtracking would leave the parser state unbalanced
+struct bracketed : if_must<open_bracket, expression, close_bracket> {};
 struct value : pad<sor<hex_integer, integer, variable, bracketed>, space> {};
 struct unary_expression0 : sor<seq<unary_op, value>, seq<unary_op, unary_expression>> {};
 struct unary_expression : sor<value, pad<unary_expression0, space>> {};
-- 
2.43.0


From c03432f3ed9914e38db58d25dab8c231184eefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:36 +0000
Subject: [PATCH 05/73] fix: reverse continue from a breakpoint that is not
 inserted no longer reads out of bounds

---
 src/scheduler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5a612b3..ffd258d 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -200,7 +200,7 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
         target_index = breakpoints_.size() - 1;
     }
 
-    if (!target_index && target_index >= breakpoints_.size()) {
+    if (!target_index || *target_index >= breakpoints_.size()) {
         current_breakpoint_id_ = std::nullopt;
         return {};
     }
-- 
2.43.0


From 805b9cfd87a770b3fd7081ac5f3e71976237cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:36 +0000
Subject: [PATCH 06/73] fix: a breakpoint's enable condition always guards the
 user's condition

---
 src/scheduler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index ffd258d..83210bd 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -349,7 +349,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
     std::string cond = "1";
     if (!db_bp.condition.empty()) cond = db_bp.condition;
     if (!bp_info.condition.empty()) {
-        cond.append(" && " + bp_info.condition);
+        // either one can have operators that bind less tightly than &&
+        cond = fmt::format("({0}) && ({1})", cond, bp_info.condition);
     }
 
     auto insert_bp = [bp_type, this, &db_bp, cond,
-- 
2.43.0


From 20c67351eba97d7dd28abf4fe848234504b6b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:36 +0000
Subject: [PATCH 07/73] fix: breakpoints in the middle of a batch are evaluated
 in the same cycle

---
 src/scheduler.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 83210bd..7f5b1c4 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -89,13 +89,15 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
     for (uint64_t i = 0; i < breakpoints_.size(); i++) {
         if (breakpoints_[i]->evaluated) {
             pos = i;
+            // breakpoints after the current one that are not batched with it come later
+            if (current_breakpoint_id_ && breakpoints_[i]->id == *current_breakpoint_id_) break;
         }
     }
     if (pos) {
         // we have a last hit
-        if (*pos + 1 < breakpoints_.size()) {
-            index = *pos + 1;
-        } else {
+        index = *pos + 1;
+        while (index < breakpoints_.size() && breakpoints_[index]->evaluated) index++;
+        if (index >= breakpoints_.size()) {
             // the end
             return {};
         }
@@ -581,8 +583,8 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
         if (next_bp->type == DebugBreakPoint::Type::data) {
             return true;
         }
-        // same enable expression but different instance id
-        if (next_bp->instance_id != ref_bp->instance_id &&
+        // same enable expression but different instance id. never twice in the same cycle
+        if (next_bp->instance_id != ref_bp->instance_id && !(forward && next_bp->evaluated) &&
             next_bp->enable_expr->expression() == target_expr) {
             result.emplace_back(next_bp.get());
         }
-- 
2.43.0


From afc81b318998bb3e5d16401a30275d842f2efade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:15 +0000
Subject: [PATCH 08/73] fix: breakpoints that share an id are updated and
 removed together, and only those of the same kind

---
 src/scheduler.cc | 92 +++++++++++++++++-------------------------------
 src/scheduler.hh |  1 -
 2 files changed, 33 insertions(+), 60 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 7f5b1c4..cdc0c81 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -261,36 +261,30 @@ std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
 std::unique_ptr<DebugBreakPoint> Scheduler::remove_breakpoint(uint64_t bp_id,
                                                               DebugBreakPoint::Type type) {
     // notice that removal doesn't need reordering
-    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end(); pos++) {
-        if ((*pos)->id == bp_id) {
+    // there can be several breakpoints with the same id: one for each namespace, and data
+    // breakpoints for different variables
+    std::unique_ptr<DebugBreakPoint> res;
+    for (auto &bp : breakpoints_) {
+        if (bp->id == bp_id && bp->has_type_flag(type)) {
             // erase the type first. if the remaining type is 0, then we completely erase the
             // breakpoint
-            auto t = static_cast<uint32_t>((*pos)->type);
+            auto t = static_cast<uint32_t>(bp->type);
             t &= ~(static_cast<uint32_t>(type));
             if (t == 0) {
-                // remove it before after transfer the ownership
-                std::unique_ptr<DebugBreakPoint> res = std::move(*pos);
-                breakpoints_.erase(pos);
-                inserted_breakpoints_.erase(bp_id);
-                return res;
+                res = std::move(bp);
             } else {
-                (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
+                bp->type = static_cast<DebugBreakPoint::Type>(t);
             }
-            break;
         }
     }
-    return nullptr;
+    std::erase(breakpoints_, nullptr);
+    return res;
 }
 
 void Scheduler::remove_assert_breakpoints() {
-    auto ids =
-        std::unordered_set<uint32_t>(inserted_breakpoints_.begin(), inserted_breakpoints_.end());
-    for (auto bp_id : ids) {
-        auto *bp = get_breakpoint(bp_id);
-        if (bp && bp->has_type_flag(DebugBreakPoint::Type::assert) && bp->evaluated) {
-            remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
-        }
-    }
+    std::erase_if(breakpoints_, [](auto const &bp) {
+        return bp->type == DebugBreakPoint::Type::assert && bp->evaluated;
+    });
 }
 
 void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
@@ -315,7 +309,6 @@ void Scheduler::set_evaluation_mode(EvaluationMode mode) {
 }
 
 void Scheduler::clear() {
-    inserted_breakpoints_.clear();
     breakpoints_.clear();
 }
 
@@ -388,7 +381,6 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             return holder.get();
         } else {
             auto &ptr = breakpoints_.emplace_back(std::move(bp));
-            inserted_breakpoints_.emplace(db_bp.id);
             log_info(
                 fmt::format("Breakpoint inserted into {0}:{1}", db_bp.filename, db_bp.line_num));
             return ptr.get();
@@ -401,32 +393,26 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
     switch (bp_type) {
         case DebugBreakPoint::Type::normal: {
-            if (inserted_breakpoints_.find(db_bp.id) == inserted_breakpoints_.end()) {
-                DebugBreakPoint *p = nullptr;
-                for (auto *ns : namespaces) {
-                    p = insert_bp(ns);
-                }
-                // Only need to return one
-                return p;
-            } else {
-                // update breakpoint entry
-                for (auto &b : breakpoints_) {
-                    if (db_bp.id == b->id) {
-                        b->expr = std::make_unique<DebugExpression>(cond);
-                        auto *ns = namespaces_[b->ns_id];
-                        auto *rtl = ns->rtl.get();
-                        util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                        if (!b->expr->correct()) [[unlikely]] {
-                            log_error("Unable to validate breakpoint expression: " + cond);
-                        }
-                        // need to update the bp type flag
-                        b->type = static_cast<DebugBreakPoint::Type>(static_cast<int>(b->type) |
-                                                                     static_cast<int>(bp_type));
-                        return b.get();
+            DebugBreakPoint *p = nullptr;
+            // update breakpoint entries, one for each namespace
+            for (auto &b : breakpoints_) {
+                if (db_bp.id == b->id && b->has_type_flag(bp_type)) {
+                    b->expr = std::make_unique<DebugExpression>(cond);
+                    auto *ns = namespaces_[b->ns_id];
+                    auto *rtl = ns->rtl.get();
+                    util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
+                    if (!b->expr->correct()) [[unlikely]] {
+                        log_error("Unable to validate breakpoint expression: " + cond);
                     }
+                    p = b.get();
                 }
-                return nullptr;
             }
+            if (p) return p;
+            for (auto *ns : namespaces) {
+                p = insert_bp(ns);
+            }
+            // Only need to return one
+            return p;
         }
         case DebugBreakPoint::Type::data: {
             // we skip insertion if everything matches
@@ -485,23 +471,11 @@ void Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
     // if it has both data breakpoints and normal breakpoints, clear the flag
     // else remove this breakpoint
-    std::unordered_set<uint32_t> bps;
+    std::erase_if(breakpoints_,
+                  [](auto const &bp) { return bp->type == DebugBreakPoint::Type::data; });
     for (auto &bp : breakpoints_) {
         if (bp->has_type_flag(DebugBreakPoint::Type::data)) {
-            if (bp->has_type_flag(DebugBreakPoint::Type::normal)) {
-                bp->type = DebugBreakPoint::Type::normal;
-            } else {
-                // remove this breakpoint
-                bps.emplace(bp->id);
-            }
-        }
-    }
-    for (auto id : bps) {
-        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
-                                [id](auto const &bp) { return bp->id == id; });
-        if (pos != breakpoints_.end()) {
-            breakpoints_.erase(pos);
-            inserted_breakpoints_.erase(id);
+            bp->type = DebugBreakPoint::Type::normal;
         }
     }
 }
diff --git a/src/scheduler.hh b/src/scheduler.hh
index eee36d3..332f66d 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -90,7 +90,6 @@ private:
     EvaluationMode evaluation_mode_ = EvaluationMode::BreakPointOnly;
 
     std::vector<std::unique_ptr<DebugBreakPoint>> breakpoints_;
-    std::unordered_set<uint32_t> inserted_breakpoints_;
     // look up table for ordering of breakpoints
     std::unordered_map<uint32_t, uint64_t> bp_ordering_table_;
     std::vector<uint32_t> bp_ordering_;
-- 
2.43.0


From c4433e283ebe91d248affbda9d7e0898ff3c8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:15 +0000
Subject: [PATCH 09/73] fix: an invalid data breakpoint is rejected instead of
 crashing or being half inserted

---
 src/scheduler.cc | 4 +++-
 src/scheduler.hh | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index cdc0c81..dbec27c 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -427,7 +427,7 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             }
             DebugBreakPoint *data_bp = nullptr;
             for (auto *ns : namespaces) {
-                data_bp = insert_bp(ns);
+                // only insert it if the variable is valid
                 auto *rtl = ns->rtl.get();
                 auto expr = DebugExpression(target_var);
                 util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
@@ -436,6 +436,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                     log_error("Unable to validate variable in data breakpoint: " + target_var);
                     return nullptr;
                 }
+                data_bp = insert_bp(ns);
+                if (!data_bp) return nullptr;
                 data_bp->full_rtl_handle = handles.begin()->second;
                 data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
                 data_bp->target_rtl_var_name = target_var;
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 332f66d..43d1599 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -32,7 +32,7 @@ struct DebugBreakPoint {
 
     // used for data breakpoint
     Type type = Type::normal;
-    vpiHandle full_rtl_handle;
+    vpiHandle full_rtl_handle = nullptr;
     std::string full_rtl_name;
     std::string target_rtl_var_name;
     uint64_t watch_id = 0;
-- 
2.43.0


From 990f2bb0287a5aeaeffc3c5c42dab780911da0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:15 +0000
Subject: [PATCH 10/73] fix: breakpoints added by id are put in execution order

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index 9aaa5c4..d56e5c2 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -594,6 +594,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             return;
         }
         add_breakpoint(bp_info, *bp);
+        scheduler_->reorder_breakpoints();
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
-- 
2.43.0


From 3280c21699a5a28690db5a175ade7b37c8412bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 11/73] fix: data breakpoints keep the variable's condition and
 the watch they share

---
 src/debug.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index d56e5c2..7b628e9 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1018,11 +1018,11 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 std::string bp_condition;
                 if (req.condition().empty())
                     bp_condition = data_condition;
-                else if (bp_condition.empty())
+                else if (data_condition.empty())
                     bp_condition = req.condition();
                 else
                     // merge these two
-                    bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
+                    bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
                 auto *bp =
                     scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
                 if (!bp) {
@@ -1044,7 +1044,9 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 if (!dry_run) {
                     auto watched = monitor->is_monitored(bp->full_rtl_handle,
                                                          MonitorRequest::MonitorType::data);
-                    if (!watched) {
+                    if (watched) {
+                        bp->watch_id = *watched;
+                    } else {
                         bp->watch_id = monitor->add_monitor_variable(
                             bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
                         log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
-- 
2.43.0


From 04344cc92522d1aa199f4b1ac255c57f4bceeb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 12/73] fix: slices stop at their high bit, and any bounds and
 unknown bits are fine

---
 src/rtl.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index e36525b..1861afb 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -255,8 +255,11 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     // notice that hi and lo are inclusive
     auto [parent, hi, lo] = info;
     auto v = static_cast<uint64_t>(value);
-    auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
-    v = v & hi_mask;
+    if (lo > 63) return 0;
+    if (hi < 63) {
+        auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
+        v = v & hi_mask;
+    }
     v = v >> lo;
     return static_cast<int64_t>(v);
 }
@@ -325,12 +328,12 @@ std::string get_slice(const std::string &value,
     auto [parent, hi, lo] = info;
     // notice that it's in reverse order!
     // hi and lo are inclusive as in RTL
-    if (lo > value.size() - 1) {
+    if (lo >= value.size()) {
         return "0";
     }
 
-    auto pos = std::min<uint32_t>(value.size() - hi - 1, 0);
-    auto lo_pos = std::max<uint32_t>(value.size() - lo - 1, 0);
+    auto pos = hi >= value.size() ? 0 : value.size() - hi - 1;
+    auto lo_pos = value.size() - lo - 1;
     auto result = value.substr(pos, lo_pos - pos + 1);
     // now we have binary result, need to convert it into hex
     // pad string to multiple of 4
@@ -340,6 +343,15 @@ std::string get_slice(const std::string &value,
     std::string s;
     for (auto i = 0u; i < result.size(); i += 4) {
         auto str = result.substr(i, 4);
+        // unknown bits don't have a number
+        if (str.find_first_of("xX") != std::string::npos) {
+            s.append("x");
+            continue;
+        }
+        if (str.find_first_of("zZ") != std::string::npos) {
+            s.append("z");
+            continue;
+        }
         auto v = std::stoul(str, nullptr, 2);
         s.append(fmt::format("{0:X}", v));
     }
-- 
2.43.0


From 5e49c7068554fb7498ba1f42c644b40cc3ed206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 13/73] fix: a slice of a signal is a signal of its own, and
 the simulator is not asked about it

---
 src/rtl.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index 1861afb..de250b6 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -1078,6 +1078,15 @@ vpiHandle RTLSimulatorClient::add_mock_slice_vpi(vpiHandle parent, const std::st
     auto [hi, lo] = *slice_num;
     auto *new_handle = vpi_allocator_ ? (*vpi_allocator_)() : ++mock_slice_handle_counter_;
     mock_slice_handles_.emplace(new_handle, std::make_tuple(parent, hi, lo));
+    // the simulator doesn't know about this handle
+    {
+        std::lock_guard guard(cached_vpi_types_lock_);
+        cached_vpi_types_.insert_or_assign(new_handle, vpiPartSelect);
+    }
+    {
+        std::lock_guard guard(cached_vpi_size_lock_);
+        cached_vpi_size_.insert_or_assign(new_handle, hi - lo + 1);
+    }
     return new_handle;
 }
 
-- 
2.43.0


From cb1eb06c385b18aa5996c0e22e40d17f8643eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 14/73] fix: a name that is not in the design does not resolve
 to a module above it

---
 src/rtl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index de250b6..d83d888 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -169,7 +169,7 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // deal with verilator. remove []
             auto tokens = util::get_tokens(full_name, ".[]");
             ptr = get_handle(tokens);
-            if (ptr) handle_map_.emplace(name, ptr);
+            if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
     }
@@ -212,6 +212,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
                         ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, ptr);
                         break;
                     }
+                    // the rest is not in that module
+                    ptr = nullptr;
                 }
             }
         }
-- 
2.43.0


From d33995bcb931d24f02040090ddcb3e459e53a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 15/73] fix: an array index too large for the simulator is
 rejected

---
 src/rtl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index d83d888..d475cbf 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -245,8 +245,10 @@ vpiHandle RTLSimulatorClient::access_arrays(StringIterator begin, StringIterator
         if (!std::all_of(idx.begin(), idx.end(), ::isdigit)) {
             return nullptr;
         }
-        auto index_value = std::stoi(idx);
-        var_handle = vpi_->vpi_handle_by_index(var_handle, index_value);
+        auto index_value = util::stol(idx);
+        if (!index_value || *index_value > std::numeric_limits<PLI_INT32>::max()) return nullptr;
+        var_handle =
+            vpi_->vpi_handle_by_index(var_handle, static_cast<PLI_INT32>(*index_value));
         if (!var_handle) return nullptr;
         it++;
     }
-- 
2.43.0


From e5a25c11ef4c548723ac4a7d34ae5d563f14a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 16/73] fix: the module of an assertion is read from the same
 simulator as everything else

---
 src/rtl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index d475cbf..631ea42 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -1040,7 +1040,7 @@ std::optional<RTLSimulatorClient::AssertInfo> RTLSimulatorClient::get_assert_inf
         auto type = vpi_->vpi_get(vpiType, it);
         if (type == vpiModule) {
             // this is the module
-            res.full_name = vpi_get_str(vpiFullName, it);
+            res.full_name = vpi_->vpi_get_str(vpiFullName, it);
         } else if (type == vpiConstant) {
             auto const_type = vpi_->vpi_get(vpiConstType, it);
             if (const_type == vpiStringConst) {
-- 
2.43.0


From 9305b839c2b1ca335bb263e4a518cfd4f534c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 17/73] fix: matching an instance path against a short
 hierarchy no longer reads out of bounds

---
 src/rtl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 631ea42..49e04ce 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -759,7 +759,7 @@ std::pair<bool, std::string> match(const std::string &full_name,
     auto full_tokens = util::get_tokens(full_name, ".");
     // the test bench should contain the top, as a result, the full token should be
     // at least + 1
-    if (full_tokens.size() < (tokens.size() - 1)) return false_;
+    if (full_tokens.size() < (tokens.size() + 1)) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -768,7 +768,7 @@ std::pair<bool, std::string> match(const std::string &full_name,
     }
 
     // compute the prefix
-    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size()) + 1;
+    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size());
     auto prefix =
         fmt::format("{0}.", fmt::join(full_tokens.begin(), full_tokens.begin() + size_diff, "."));
 
-- 
2.43.0


From 7f1ad626e8e6d10a5ca6641e3f708c9b0c0c3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 18/73] fix: unsigned numbers are read over their full range
 and are never negative

---
 src/util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 2a611b5..061f08b 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -32,7 +32,10 @@ std::vector<std::string> get_tokens(const std::string &line, const std::string &
 
 std::optional<uint64_t> stoul(const std::string &value) {
     try {
-        return std::stol(value);
+        // negative numbers wrap around
+        auto pos = value.find_first_not_of(" \t");
+        if (pos != std::string::npos && value[pos] == '-') return {};
+        return std::stoul(value);
     } catch (std::exception &) {
         return {};
     }
-- 
2.43.0


From a958c1e062443ee1cfcd2c30d84db20365c18e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:07 +0000
Subject: [PATCH 19/73] fix: a delayed watch reports nothing until it has seen
 enough cycles

---
 src/monitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monitor.cc b/src/monitor.cc
index 3a188a7..2a38eca 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -109,7 +109,7 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
                 // we assume this will be called every clock cycle
                 auto new_value = rtl_->get_value(watch_var->handle);
                 // we use the old value
-                auto old_value = *watch_var->get_value();
+                auto old_value = watch_var->get_value();
                 watch_var->set_value(new_value);
                 result.emplace_back(std::make_pair(watch_id, old_value));
             }
-- 
2.43.0


From 25d990a8483b8a7ae0e73793622c38d16a5e11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:07 +0000
Subject: [PATCH 20/73] fix: a delayed watch of depth zero no longer reads an
 empty queue

---
 src/monitor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/monitor.cc b/src/monitor.cc
index 2a38eca..c31c387 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -173,7 +173,9 @@ Monitor::WatchVariable::WatchVariable(WatchType type, std::string full_name, vpi
 
 Monitor::WatchVariableBuffer::WatchVariableBuffer(std::string full_name, vpiHandle handle,
                                                   uint32_t depth)
-    : WatchVariable(WatchType::delay_clock_edge, std::move(full_name), handle), depth_(depth) {}
+    : WatchVariable(WatchType::delay_clock_edge, std::move(full_name), handle),
+      // the shortest delay is one cycle
+      depth_(depth ? depth : 1) {}
 
 std::optional<int64_t> Monitor::WatchVariableBuffer::get_value() const {
     if (values_.size() == depth_) [[likely]] {
-- 
2.43.0


From 0c54c02de6125e76c8028088e9292c2fe6b45dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:07 +0000
Subject: [PATCH 21/73] fix: watch ids are not truncated

---
 src/monitor.cc | 2 +-
 src/monitor.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/monitor.cc b/src/monitor.cc
index c31c387..aa3806c 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -148,7 +148,7 @@ std::pair<bool, std::optional<int64_t>> Monitor::var_changed(uint64_t id) {
     return {false, {}};
 }
 
-uint32_t Monitor::add_watch_var(std::unique_ptr<WatchVariable> w) {
+uint64_t Monitor::add_watch_var(std::unique_ptr<WatchVariable> w) {
     watched_variables_.emplace(watch_id_count_, std::move(w));
     return watch_id_count_++;
 }
diff --git a/src/monitor.hh b/src/monitor.hh
index a6365f3..3e9506c 100644
--- a/src/monitor.hh
+++ b/src/monitor.hh
@@ -80,7 +80,7 @@ private:
     uint64_t watch_id_count_ = 0;
     std::unordered_map<uint64_t, std::unique_ptr<WatchVariable>> watched_variables_;
 
-    uint32_t add_watch_var(std::unique_ptr<WatchVariable> w);
+    uint64_t add_watch_var(std::unique_ptr<WatchVariable> w);
 };
 
 }  // namespace hgdb
-- 
2.43.0


From 669d682cd47b89828c58fd6e3dda8ce119571aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 22/73] fix: consecutive $parent leave one scope each

---
 src/rtl.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 49e04ce..c51ba6b 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -580,17 +580,15 @@ std::string resolve_rtl_path(const std::string &path) {
         return path;
     }
 
-    auto tokens = util::get_tokens(path, ".");
-    for (auto i = 1u; i < tokens.size(); i++) {
-        if (tokens[i] == "$parent") {
-            tokens[i] = "";
-            tokens[i - 1] = "";
+    std::vector<std::string> tokens;
+    for (auto const &token : util::get_tokens(path, ".")) {
+        if (token == "$parent" && !tokens.empty()) {
+            // leave the innermost scope that is still there
+            tokens.pop_back();
+        } else {
+            tokens.emplace_back(token);
         }
     }
-    // filter empty ones
-    tokens.erase(
-        std::remove_if(tokens.begin(), tokens.end(), [](auto const &s) { return s.empty(); }),
-        tokens.end());
     auto res = fmt::format("{0}", fmt::join(tokens.begin(), tokens.end(), "."));
     return res;
 }
-- 
2.43.0


From c5502378ad5e69e2ec4277facddb5619f9525e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 23/73] fix: joining no tokens no longer reads out of bounds

---
 src/util.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util.hh b/src/util.hh
index 590c11d..5e00270 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -18,6 +18,7 @@ std::string join(T begin, T end, const std::string &sep) {
     // more efficient way will be using ostream_joiner,
     // but it is still experimental
     auto it = begin;
+    if (it == end) return {};
     stream << *it;
     it++;
     while (it != end) {
-- 
2.43.0


From adb6ef3119882335ed5540f4cc6cd59356d1aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 24/73] fix: slice bounds too large for a signal are rejected

---
 src/rtl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index c51ba6b..fea5892 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -1067,7 +1067,8 @@ std::optional<std::pair<uint32_t, uint32_t>> extract_slice(const std::string &to
     uint32_t hi = 0, lo = std::numeric_limits<uint32_t>::max();
     for (auto const &num : nums) {
         auto n = util::stoul(num);
-        if (!n) return {};
+        // bits that no signal has
+        if (!n || *n > static_cast<uint64_t>(std::numeric_limits<PLI_INT32>::max())) return {};
         if (*n < lo) lo = *n;
         if (*n > hi) hi = *n;
     }
-- 
2.43.0


From 3dfac33eda69b9035c854d85d15048af894cac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 25/73] fix: a slice of a module is not a signal

---
 src/rtl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index fea5892..6adc3cd 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -192,6 +192,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
             auto handle_name = util::join(
                 tokens.begin(), tokens.begin() + static_cast<uint32_t>(tokens.size()) - 1, ".");
             ptr = get_handle_raw(handle_name);
+            // modules don't have bits
+            if (ptr && get_vpi_type(ptr) == vpiModule) return nullptr;
         }
 
         if (!ptr) [[likely]] {
-- 
2.43.0


From d965a79a62aa3eedd4011eca4dd65ca04e6fb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 26/73] fix: setting a slice fails instead of handing its
 made-up handle to the simulator

---
 src/rtl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index 6adc3cd..a07d153 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -401,6 +401,8 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
+    // the simulator doesn't know about slices
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
     s_vpi_value vpi_value;
     vpi_value.value.integer = static_cast<int>(value);
     vpi_value.format = vpiIntVal;
-- 
2.43.0


From 8633d44913e17ba3fbcd5e1f6085c54b9c5902f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 27/73] fix: the names of interface and struct members survive
 the next simulator call

---
 src/rtl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index a07d153..e0fb8e6 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -610,8 +610,9 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
                             int property, std::vector<std::pair<std::string, std::string>> &res) {
         if (auto *it = vpi_->vpi_iterate(property, handle)) {
             while (auto *h = vpi_->vpi_scan(it)) {
-                auto *rtl = vpi_->vpi_get_str(vpiFullName, h);
-                auto *n = vpi_->vpi_get_str(vpiName, h);
+                // the simulator may reuse the string for the next call
+                std::string rtl = vpi_->vpi_get_str(vpiFullName, h);
+                std::string n = vpi_->vpi_get_str(vpiName, h);
                 // make it recursive to account for
                 auto new_res = resolve_rtl_variable(front_name + "." + n, rtl);
                 res.insert(res.end(), new_res.begin(), new_res.end());
-- 
2.43.0


From d9c86a604fb126eeaf689dfcb8b218df0929deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 28/73] fix: slices above bit 31 are read from the whole signal

---
 src/rtl.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index e0fb8e6..26b54cf 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -299,6 +299,22 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     }
 
     s_vpi_value v;
+    if (is_slice_handle && std::get<1>(mock_slice_handles_.at(target_handle)) >= 32) [[unlikely]] {
+        // an integer only has the lower 32 bits
+        auto const &[parent, hi, lo] = mock_slice_handles_.at(target_handle);
+        v.format = vpiBinStrVal;
+        vpi_->vpi_get_value(handle, &v);
+        std::string const bits = v.value.str;
+        uint64_t slice = 0;
+        for (auto i = bits.size(); i > 0; i--) {
+            auto bit = bits.size() - i;
+            if (bit >= lo && bit <= hi && bit - lo < 64 && bits[i - 1] == '1') {
+                slice |= uint64_t(1) << (bit - lo);
+            }
+        }
+        return static_cast<int64_t>(slice);
+    }
+
     v.format = vpiIntVal;
     vpi_->vpi_get_value(handle, &v);
     int64_t result = v.value.integer;
-- 
2.43.0


From 6aa16ac72fa23aafc30ba634945ffce3ec10929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:59 +0000
Subject: [PATCH 29/73] fix: an empty instance name has no namespaces

---
 src/namespace.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/namespace.cc b/src/namespace.cc
index 5a8ce9a..5de20e6 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -54,7 +54,9 @@ const std::vector<DebuggerNamespace *> &DebuggerNamespaceManager::get_namespaces
     const std::optional<std::string> &instance_name) {
     const static std::vector<DebuggerNamespace *> empty = {};
     if (!instance_name) return empty;
-    auto def_name = util::get_tokens(*instance_name, ".")[0];
+    auto const tokens = util::get_tokens(*instance_name, ".");
+    if (tokens.empty()) return empty;
+    auto const &def_name = tokens[0];
     if (mapped_namespaces_.find(def_name) != mapped_namespaces_.end()) [[likely]] {
         return mapped_namespaces_.at(def_name);
     } else {
-- 
2.43.0


From 25c2de53ebe263e4b814c46de03368bf5ceac914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:45 +0000
Subject: [PATCH 30/73] fix: the simulator is not asked for the name of a slice

---
 src/rtl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 26b54cf..05f2231 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -284,7 +284,11 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
         if (is_verilator()) {
             auto width = get_vpi_size(handle);
             if (width > 64) [[unlikely]] {
-                auto *name = vpi_->vpi_get_str(vpiName, handle);
+                // the simulator doesn't know about slices
+                auto const slice = mock_slice_handles_.find(handle);
+                auto *name_handle =
+                    slice == mock_slice_handles_.end() ? handle : std::get<0>(slice->second);
+                auto *name = vpi_->vpi_get_str(vpiName, name_handle);
                 log::log(log::log_level::info,
                          fmt::format("{0} is too large to display as an integer", name));
                 return {};
-- 
2.43.0


From 8a5a78f851bb73462652c4cf8c5feef7f634f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:05 +0000
Subject: [PATCH 31/73] fix: a failed request to monitor signals leaves earlier
 callbacks registered

---
 src/rtl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 05f2231..4afa252 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -968,9 +968,11 @@ bool RTLSimulatorClient::monitor_signals(const std::vector<std::string> &signals
         if (handle) {
             // only add valid callback to avoid simulator errors
             auto callback_name = "Monitor " + full_name;
+            // callbacks from earlier requests are not ours to roll back
+            auto const is_new = callback_names().count(callback_name) == 0;
             auto const *r = add_call_back(callback_name, cbValueChange, cb_func, handle, user_data);
             if (r) {
-                added_handles.emplace_back(callback_name);
+                if (is_new) added_handles.emplace_back(callback_name);
                 error = false;
             }
         }
-- 
2.43.0


From 7066ba7bc7d57918723e6eb01f9dccf805589ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:23 +0000
Subject: [PATCH 32/73] fix: messages and payloads that are not JSON objects
 are errors, not crashes

---
 src/proto.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 1ca4c3e..7735b83 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -179,7 +179,7 @@ namespace hgdb {
 template <typename T>
 static bool check_member(T &document, const char *member_name, std::string &error,
                          bool set_error = true) {
-    if (!document.HasMember(member_name)) {
+    if (!document.IsObject() || !document.HasMember(member_name)) {
         if (set_error) error = fmt::format("Unable to find member {0}", member_name);
         return false;
     }
@@ -980,6 +980,12 @@ void OptionChangeRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
+    if (!document.IsObject()) {
+        error_reason_ = "Options have to be an object";
+        status_code_ = status_code::error;
+        return;
+    }
+
     // need to loop through the map by hand
     for (auto const &option : document.GetObject()) {
         std::string name = option.name.GetString();
@@ -1178,7 +1184,7 @@ void SymbolRequest::parse_payload(const std::string &payload) {
             break;
         }
         case request_type::get_instance_id: {
-            if (document.HasMember("breakpoint_id")) {
+            if (document.IsObject() && document.HasMember("breakpoint_id")) {
                 auto id = get_member<uint32_t>(document, "breakpoint_id", error_reason_);
                 if (!id) return;
                 breakpoint_id = *id;
@@ -1397,7 +1403,7 @@ void SymbolResponse::parse(const std::string &str) {
     document.Parse(str.c_str());
     if (document.HasParseError()) return;
 
-    if (!document.HasMember("result")) return;
+    if (!document.IsObject() || !document.HasMember("result")) return;
     auto const &result = document["result"];
 
     // we ignore type since it's a single thread model
-- 
2.43.0


From 24fe96b0cdd288098bbbec066a0ccc3229855bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:23 +0000
Subject: [PATCH 33/73] fix: numbers that do not fit their field are rejected
 instead of read as something else

---
 src/proto.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 7735b83..62f5c19 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -197,7 +197,7 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
             error = fmt::format("Invalid type for {0}", member_name);
         }
     } else if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
-        if (document[member_name].IsNumber()) {
+        if (document[member_name].template Is<T>()) {
             return document[member_name].template Get<T>();
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
@@ -785,13 +785,13 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
     }
 
     bool line_num_required = bp_action_ == action::add;
-    auto line_num = get_member<uint64_t>(document, "line_num", error_reason_, line_num_required);
+    auto line_num = get_member<uint32_t>(document, "line_num", error_reason_, line_num_required);
     if (line_num_required || line_num)
         bp_.line_num = *line_num;
     else
         bp_.line_num = 0;
 
-    auto column_num = get_member<uint64_t>(document, "column_num", error_reason_, false);
+    auto column_num = get_member<uint32_t>(document, "column_num", error_reason_, false);
     auto condition = get_member<std::string>(document, "condition", error_reason_, false);
     if (column_num)
         bp_.column_num = *column_num;
@@ -806,7 +806,7 @@ void BreakPointIDRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
-    auto id = get_member<uint64_t>(document, "id", error_reason_);
+    auto id = get_member<uint32_t>(document, "id", error_reason_);
     auto bp_act = get_member<std::string>(document, "action", error_reason_);
     if (!id || !bp_act) {
         status_code_ = status_code::error;
@@ -1430,7 +1430,7 @@ void SymbolResponse::parse(const std::string &str) {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
-            if (!result.IsNumber()) return;
+            if (!result.IsUint64()) return;
             uint64_t_result = result.GetUint64();
             break;
         }
@@ -1478,8 +1478,8 @@ void SymbolResponse::parse(const std::string &str) {
         case SymbolRequest::request_type::get_execution_bp_orders: {
             if (!result.IsArray()) return;
             for (auto const &entry : result.GetArray()) {
-                if (!entry.IsNumber()) return;
-                uint64_t_results.emplace_back(entry.GetUint64());
+                if (!entry.IsUint()) return;
+                uint64_t_results.emplace_back(entry.GetUint());
             }
             break;
         }
@@ -1492,8 +1492,8 @@ void SymbolResponse::parse(const std::string &str) {
                 std::optional<uint32_t> breakpoint_id;
                 std::optional<std::string> var_name, condition;
                 for (auto const &[key, value] : entry.GetObject()) {
-                    if ((key == "id" || key == "breakpoint_id") && value.IsNumber()) {
-                        breakpoint_id = value.GetUint64();
+                    if ((key == "id" || key == "breakpoint_id") && value.IsUint()) {
+                        breakpoint_id = value.GetUint();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
                                 key == "variable_name") ||
                                value.IsString()) {
-- 
2.43.0


From 27a1ef8d648ae414b0418941251f81a6a134e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:24 +0000
Subject: [PATCH 34/73] fix: adding a breakpoint without a line number is an
 error

---
 src/proto.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index 62f5c19..007fadc 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -786,7 +786,11 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
 
     bool line_num_required = bp_action_ == action::add;
     auto line_num = get_member<uint32_t>(document, "line_num", error_reason_, line_num_required);
-    if (line_num_required || line_num)
+    if (line_num_required && !line_num) {
+        status_code_ = status_code::error;
+        return;
+    }
+    if (line_num)
         bp_.line_num = *line_num;
     else
         bp_.line_num = 0;
-- 
2.43.0


From 62471b07a1038a9f307ce701359b1086c663c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:24 +0000
Subject: [PATCH 35/73] fix: a monitor request with an unknown action is an
 error

---
 src/proto.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto.cc b/src/proto.cc
index 007fadc..d9539bd 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1025,6 +1025,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
     } else if (*action_type == "remove") {
         action_type_ = ActionType::remove;
     } else {
+        status_code_ = status_code::error;
         error_reason_ = "Unknown action type " + *action_type;
         return;
     }
-- 
2.43.0


From 179a7663c2930545968a55eacd92ae9506d13e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:24 +0000
Subject: [PATCH 36/73] fix: the text of a symbol reply is only read from text
 members

---
 src/proto.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index d9539bd..f37ab2f 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1500,7 +1500,7 @@ void SymbolResponse::parse(const std::string &str) {
                     if ((key == "id" || key == "breakpoint_id") && value.IsUint()) {
                         breakpoint_id = value.GetUint();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
-                                key == "variable_name") ||
+                                key == "variable_name") &&
                                value.IsString()) {
                         var_name = value.GetString();
                     } else if ((key == "condition" || key == "cond") && value.IsString()) {
-- 
2.43.0


From cfce2c292f80201e024894ddc5f43554ede031d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:27 +0000
Subject: [PATCH 37/73] fix: the error for a malformed request keeps the
 request's token

---
 src/proto.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index f37ab2f..9c08b64 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -693,16 +693,24 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     if (document.HasParseError()) return std::make_unique<ErrorRequest>("Invalid json object");
 
     std::string error;
+    // get token
+    auto token = get_member<std::string>(document, "token", error, false, false);
+    // an error has to carry the token as well, otherwise the client cannot tell which request
+    // went wrong
+    auto make_error = [&token](const std::string &reason) {
+        std::unique_ptr<Request> r = std::make_unique<ErrorRequest>(reason);
+        if (token) r->token_ = *token;
+        return r;
+    };
+
     auto request = get_member<bool>(document, "request", error);
-    if (!request || !(*request)) return std::make_unique<ErrorRequest>(error);
+    if (!request || !(*request)) return make_error(error);
 
     auto type = get_member<std::string>(document, "type", error);
-    if (!type) return std::make_unique<ErrorRequest>(error);
+    if (!type) return make_error(error);
     // get payload
     auto payload = check_member(document, "payload", error);
-    if (!payload) return std::make_unique<ErrorRequest>(error);
-    // get token
-    auto token = get_member<std::string>(document, "token", error, false, true);
+    if (!payload) return make_error(error);
 
     auto const &type_str = *type;
     std::unique_ptr<Request> result;
-- 
2.43.0


From b2ea4bace212dcac0d6e172d6ac12111a883de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:53 +0000
Subject: [PATCH 38/73] fix: names of local variables are ordered consistently
 for any index

---
 src/proto.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 9c08b64..f861dae 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -499,13 +499,21 @@ bool BreakPointResponse::LocalVarNameCompare::operator()(const std::string &var1
             auto const &t1 = var1_tokens[i];
             auto const &t2 = var2_tokens[i];
 
-            if (std::all_of(t1.begin(), t1.end(), ::isdigit) &&
-                std::all_of(t2.begin(), t2.end(), ::isdigit)) {
-                auto v1 = std::stoul(t1);
-                auto v2 = std::stoul(t2);
+            auto t1_index = std::all_of(t1.begin(), t1.end(), ::isdigit);
+            auto t2_index = std::all_of(t2.begin(), t2.end(), ::isdigit);
+            if (t1_index && t2_index) {
+                // indices can be arbitrarily long, so compare the digits without leading zeros
+                auto v1 = t1.substr(std::min(t1.find_first_not_of('0'), t1.size()));
+                auto v2 = t2.substr(std::min(t2.find_first_not_of('0'), t2.size()));
+                if (v1.size() != v2.size()) {
+                    return v1.size() < v2.size();
+                }
                 if (v1 != v2) {
-                    return v1 < v2;
+                    return v1 < v2;  // NOLINT
                 }
+            } else if (t1_index != t2_index) {
+                // indices are ordered before names. they are not ordered as text among each other
+                return t1_index;
             } else if (t1 != t2) {
                 // for some reason clang-tidy wants us to use nullptr here
                 // https://github.com/Kuree/hgdb/runs/6166140093
-- 
2.43.0


From f49e66b049cbd9ad904f46e52eca77044a1abb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:00 +0000
Subject: [PATCH 39/73] fix: an option whose text is empty or a number too
 large is reported as text

---
 src/proto.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index f861dae..2c0ba2c 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -599,9 +599,9 @@ std::string DebuggerInformationResponse::str(bool pretty_print) const {
             for (auto const &[key, value] : options_) {
                 if (value == "true" || value == "false") {
                     set_member(v, allocator, key.c_str(), value == "true");
-                } else if (std::all_of(value.begin(), value.end(), isdigit)) {
-                    int64_t i = std::stoll(value);
-                    set_member(v, allocator, key.c_str(), i);
+                } else if (auto i = util::stol(value);
+                           i && std::all_of(value.begin(), value.end(), isdigit)) {
+                    set_member(v, allocator, key.c_str(), *i);
                 } else {
                     set_member(v, allocator, key.c_str(), value);
                 }
-- 
2.43.0


From 7b3a73b90e84b8b363106046c4c9c364641c12be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 40/73] fix: keep conditions with || together when they are
 combined with &&

---
 src/db.cc | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index b44e6c7..ba28cc8 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -415,6 +415,16 @@ enum class ScopeEntryType { None, Declaration, Block, Assign, Module };
 
 using ModuleDefDict = std::unordered_map<std::string, std::shared_ptr<db::json::ModuleDef>>;
 
+std::string merge_condition(const std::string &cond1, const std::string &cond2) {
+    if (cond1.empty()) return cond2;
+    if (cond2.empty()) return cond1;
+    // || is the only operator that binds looser than &&
+    auto operand = [](const std::string &cond) {
+        return cond.find("||") == std::string::npos ? cond : fmt::format("({0})", cond);
+    };
+    return fmt::format("{0} && {1}", operand(cond1), operand(cond2));
+}
+
 struct ScopeEntry {
     uint32_t line = 0;
     uint32_t column = 0;
@@ -441,7 +451,7 @@ struct ScopeEntry {
                 if (cond.empty()) {
                     cond = p->condition;
                 } else {
-                    cond.append(" && ").append(p->condition);
+                    cond = merge_condition(cond, p->condition);
                 }
             }
 
@@ -1751,18 +1761,6 @@ private:
     }
 };
 
-std::string merge_condition(const std::string &cond1, const std::string &cond2) {
-    if (cond1.empty() && cond2.empty()) {
-        return {};
-    } else if (!cond1.empty() && cond2.empty()) {
-        return cond1;
-    } else if (cond1.empty() && !cond2.empty()) {
-        return cond2;
-    } else {
-        return fmt::format("{0} && {1}", cond1, cond2);
-    }
-}
-
 std::vector<std::tuple<uint32_t, std::string, std::string>>
 JSONSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,
                                                   uint32_t breakpoint_id) {
@@ -1804,7 +1802,7 @@ JSONSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,
         auto bp_id = instance->get_bp_id(info.assign);
         if (!bp_id) continue;
         // we need to merge condition as well
-        auto cond = merge_condition(info.assign->get_condition(), info.condition);
+        auto cond = db::json::merge_condition(info.assign->get_condition(), info.condition);
         result.emplace_back(std::make_tuple(*bp_id, info.rtl_value, cond));
     }
 
-- 
2.43.0


From a39a46b34c548f7abdc03d851458c0f5910af006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:17 +0000
Subject: [PATCH 41/73] fix: refuse symbol tables that refer to undefined
 variables

---
 src/db.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index ba28cc8..410a08b 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -713,7 +713,9 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
         auto const &indices = value["indices"];
         for (auto const &index : indices.GetArray()) {
             AssignEntry::IndexInfo idx;
-            idx.var = parse_var(index["var"], info)[0];
+            auto var = parse_var(index["var"], info);
+            if (var.empty()) continue;
+            idx.var = var[0];
             idx.min = index["min"].GetUint();
             idx.max = index["max"].GetUint();
             result->indices.emplace_back(idx);
@@ -1111,8 +1113,13 @@ JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
         roots_ = db::json::parse(document, info);
 
         reordering_ = reordering(document);
+        parse_db();
+
+        if (!info.error_reason.empty()) {
+            log::log(log::log_level::error, info.error_reason);
+            roots_.clear();
+        }
     }
-    parse_db();
 }
 
 JSONSymbolTableProvider::JSONSymbolTableProvider(std::unique_ptr<JSONSymbolTableProvider> db) {
@@ -1812,6 +1819,7 @@ JSONSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,
 std::vector<uint32_t> JSONSymbolTableProvider::execution_bp_orders() {
     // because we create the breakpoint ids in order, it's very easy to create the orders
     std::vector<uint32_t> result;
+    if (bad()) return result;
     result.reserve(num_bps_);
     for (auto i = 0u; i < num_bps_; i++) {
         result.emplace_back(i);
-- 
2.43.0


From a43e5e9709e6df7eb1b36e2ba6b9cf2fee7897cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:29 +0000
Subject: [PATCH 42/73] fix: an empty name is no instance and no variable

---
 src/db.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 410a08b..8e9ace9 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1385,6 +1385,7 @@ std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(uint64_t breakp
 
 std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(const std::string &instance_name) {
     auto instances = util::get_tokens(instance_name, ".");
+    if (instances.empty()) return std::nullopt;
     for (auto const &root : roots_) {
         if (instances[0] == root->name) {
             auto const *p = root.get();
@@ -1706,7 +1707,7 @@ private:
     // NOLINTNEXTLINE
     [[nodiscard]] std::optional<Info> rtl_equivalent(const db::json::AssignEntry &assign) const {
         // the problem is the front end name maybe an indexed variable
-        if (assign.has_index()) {
+        if (assign.has_index() && !var_names_.empty()) {
             // this is an indexed variable
             // make sure up to the index we are the same
             // notice that once index is present, it's illegal to have multiple vars
-- 
2.43.0


From 6b0c2a3625e0b4a52d467e9c9fc5722413b648bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:41 +0000
Subject: [PATCH 43/73] fix: refuse modules that are instantiated inside
 themselves

---
 src/db.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 8e9ace9..46281f3 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1888,8 +1888,15 @@ bool JSONSymbolTableProvider::parse(const std::string &db_content) {
 }
 
 void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict &defs,
-                              bool &has_error) {
+                              bool &has_error, std::set<const db::json::ModuleDef *> &parents,
+                              std::set<const db::json::ModuleDef *> &resolved) {
     if (has_error) return;
+    if (resolved.find(&def) != resolved.end()) return;
+    // a module cannot be instantiated inside itself
+    if (!parents.emplace(&def).second) {
+        has_error = true;
+        return;
+    }
     std::set<db::json::ModuleDef *> subs;
     for (auto const &[name, module] : def.unresolved_instances) {
         if (defs.find(module) == defs.end()) {
@@ -1904,12 +1911,15 @@ void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict
     def.unresolved_instances.clear();
     // recursively check the child instances
     for (auto *m : subs) {
-        resolve_module_instances(*m, defs, has_error);
+        resolve_module_instances(*m, defs, has_error, parents, resolved);
     }
+    parents.erase(&def);
+    resolved.emplace(&def);
 }
 
 void JSONSymbolTableProvider::parse_db() {
     uint32_t inst_id = 0;
+    std::set<const db::json::ModuleDef *> parents, resolved;
     for (auto const &root : roots_) {
         if (!root->definition) {
             roots_.clear();
@@ -1918,7 +1928,7 @@ void JSONSymbolTableProvider::parse_db() {
         // resolve the module names
         bool has_error = false;
         resolve_module_instances(*(const_cast<db::json::ModuleDef *>(root->definition)),
-                                 module_defs_, has_error);
+                                 module_defs_, has_error, parents, resolved);
         if (has_error) {
             log::log(log::log_level::error, "Unable to resolve all referenced instances");
             roots_.clear();
-- 
2.43.0


From 1382f1ecaebbb02af28acb36195b830d360946ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:53 +0000
Subject: [PATCH 44/73] fix: do not keep a top module whose definition is
 dropped

---
 src/db.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 46281f3..fcef431 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -812,7 +812,8 @@ std::vector<std::shared_ptr<Instance>> parse(rapidjson::Document &document, JSON
         // notice that if the entry type is not a module, we are effectively discarding it
         if (parsed_entry->type == ScopeEntryType::Module) {
             auto m = std::reinterpret_pointer_cast<ModuleDef>(parsed_entry);
-            if (tops.find(m->name) != tops.end()) {
+            // the first definition of a module counts
+            if (tops.find(m->name) != tops.end() && info.module_defs.at(m->name) == m) {
                 // making a new instance. notice that the name is the same as module name
                 auto i = std::make_shared<Instance>();
                 i->name = m->name;
-- 
2.43.0


From d9e84ea7844126910c5ded26925fb9c15f17ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:06 +0000
Subject: [PATCH 45/73] fix: look for breakpoints in the file they belong to

---
 src/db.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index fcef431..5b3c419 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1198,9 +1198,10 @@ private:
         while (p) {
             if (p->type == db::json::ScopeEntryType::Block) {
                 auto const *block = reinterpret_cast<const db::json::BlockEntry *>(p);
-                if (blocks.find(block) != blocks.end() &&
-                    is_filename_equivalent(filename_, block->filename)) {
-                    return block;
+                if (blocks.find(block) != blocks.end()) {
+                    // the nearest filename is the one the entry belongs to
+                    if (is_filename_equivalent(filename_, block->filename)) return block;
+                    return nullptr;
                 }
             }
 
-- 
2.43.0


From 0f900362cbcbd29da8d976caae4b5a95a6a0f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:17 +0000
Subject: [PATCH 46/73] fix: find breakpoints by the relative filename they
 were defined with

---
 src/db.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 5b3c419..a5ca383 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1180,7 +1180,7 @@ private:
         if (ref_path.empty()) return false;
         if (is_relative(ref_path)) {
             auto f = base_name(query_path);
-            return ref_path == f;
+            return ref_path == f || ref_path == query_path;
         } else {
             return query_path == ref_path;
         }
-- 
2.43.0


From fdc14029b72e9f112a3c6dc5de8329cde3b7636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 47/73] fix: list a file shared by two top modules once

---
 src/db.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index a5ca383..db36c2c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1658,14 +1658,11 @@ public:
 };
 
 std::vector<std::string> JSONSymbolTableProvider::get_filenames() {
-    std::vector<std::string> result;
+    FilenameVisitor v;
     for (auto const &root : roots_) {
-        FilenameVisitor v;
         v.visit(*root->definition);
-        result.reserve(result.size() + v.names.size());
-        result.insert(result.end(), v.names.begin(), v.names.end());
     }
-    return result;
+    return {v.names.begin(), v.names.end()};
 }
 
 std::vector<std::string> JSONSymbolTableProvider::get_annotation_values(const std::string &name) {
-- 
2.43.0


From 84d837d84841fe0bd1dfa8a38175e06f24517b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 48/73] fix: keep the type and depth of shared variables

---
 src/db.cc | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index db36c2c..dc2688d 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -725,6 +725,19 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
     return result;
 }
 
+void set_var_type(const rapidjson::Value &value, VarDef &var) {
+    if (value.HasMember("type")) {
+        std::string t = value["type"].GetString();
+        if (t == "delay") {
+            var.type = VariableType::delay;
+
+            if (value.HasMember("depth")) {
+                var.depth = value["depth"].GetUint();
+            }
+        }
+    }
+}
+
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info) {
     std::shared_ptr<VarDef> var;
     if (value.IsString()) {
@@ -739,17 +752,7 @@ std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JS
         var->name = value["name"].GetString();
         var->value = value["value"].GetString();
         var->rtl = value["rtl"].GetBool();
-
-        if (value.HasMember("type")) {
-            std::string t = value["type"].GetString();
-            if (t == "delay") {
-                var->type = VariableType::delay;
-
-                if (value.HasMember("depth")) {
-                    var->depth = value["depth"].GetUint();
-                }
-            }
-        }
+        set_var_type(value, *var);
     }
 
     if (!var) {
@@ -768,6 +771,7 @@ void parse_var_defs(const rapidjson::Document &document, JSONParseInfo &info) {
         var->name = var_def["name"].GetString();
         var->value = var_def["value"].GetString();
         var->rtl = var_def["rtl"].GetBool();
+        set_var_type(var_def, *var);
         std::string id = var_def["id"].GetString();
         info.var_defs.emplace(id, var);
     }
-- 
2.43.0


From 33b9102313f97973eabe087f4236e01863fbd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:54 +0000
Subject: [PATCH 49/73] fix: take over the whole symbol table

---
 src/db.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index dc2688d..d13a357 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1130,6 +1130,10 @@ JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
 JSONSymbolTableProvider::JSONSymbolTableProvider(std::unique_ptr<JSONSymbolTableProvider> db) {
     roots_ = db->roots_;
     module_defs_ = db->module_defs_;
+    var_defs_ = db->var_defs_;
+    num_bps_ = db->num_bps_;
+    attributes_ = db->attributes_;
+    reordering_ = db->reordering_;
     // ownership transfer complete
     db.reset();
 }
-- 
2.43.0


From 077386404403d8721f3c7b17b2c3aa3ae7cf4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 50/73] fix: refuse symbol tables with numbers or attributes
 that cannot be read

---
 include/schema.json | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/schema.json b/include/schema.json
index 2e898c4..bdb4096 100644
--- a/include/schema.json
+++ b/include/schema.json
@@ -91,7 +91,8 @@
         "depth": {
           "description": "Indicates the delay FIFO depth. If not indicated, it's default to 1, i.e. one cycle delay",
           "type": "integer",
-          "min": 1
+          "minimum": 1,
+          "maximum": 4294967295
         }
       }
     },
@@ -131,10 +132,14 @@
         },
         "min": {
           "type": "integer",
+          "minimum": 0,
+          "maximum": 4294967295,
           "description": "Minimum value of the index, inclusive"
         },
         "max": {
           "type": "integer",
+          "minimum": 0,
+          "maximum": 4294967295,
           "description": "Maximum value of the index, inclusive"
         }
       },
@@ -161,12 +166,14 @@
         "line": {
           "description": "Line number. Starting from 1. 0 indicates invalid line number",
           "type": "integer",
-          "minimum": 0
+          "minimum": 0,
+          "maximum": 4294967295
         },
         "column": {
           "description": "Column number. Starting from 1",
           "type": "integer",
-          "minimum": 1
+          "minimum": 1,
+          "maximum": 4294967295
         },
         "condition": {
           "type": "string",
@@ -388,7 +395,11 @@
           "description": "Attribute value",
           "type": "string"
         }
-      }
+      },
+      "required": [
+        "name",
+        "value"
+      ]
     }
   }
 }
\ No newline at end of file
-- 
2.43.0


From 3fcdd013ee5f7ab77c66842565102cdd324834ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:22 +0000
Subject: [PATCH 51/73] fix: a name that merely begins like the instance name
 is local to the instance

---
 src/symbol.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 0a6d542..b90cfd0 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -52,6 +52,13 @@ bool rtl_equivalent(const std::string &a, const std::string &b) {
     return true;
 }
 
+// whether the RTL name is a full name below (or of) the instance
+bool in_instance(const std::string &rtl_name, const std::string &inst_name) {
+    if (!rtl_name.starts_with(inst_name)) return false;
+    return rtl_name.size() == inst_name.size() || rtl_name[inst_name.size()] == '.' ||
+           rtl_name[inst_name.size()] == '[';
+}
+
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     const std::string &scoped_name, uint64_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
@@ -66,7 +73,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
         auto const &[ctx, var] = *it;
         if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (in_instance(var.value, *inst_name)) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
@@ -87,7 +94,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     for (auto const &[gen, var] : vars) {
         if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (in_instance(var.value, *inst_name)) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
-- 
2.43.0


From e0036929a4e03dd3011a4c16e984bbd9403fece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 52/73] fix: read only the static values that are in scope and
 are numbers

---
 src/symbol.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index b90cfd0..a3b9881 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -175,14 +175,18 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
     uint32_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
     std::unordered_map<std::string, int64_t> result;
+    // the later one is the newest, which hides the others of the same name
+    std::unordered_set<std::string> names;
 
     // NOLINTNEXTLINE
     for (auto it = vars.rbegin(); it != vars.rend(); it++) {
         auto const &[ctx, var] = *it;
+        if (!names.emplace(ctx.name).second) continue;
         if (!var.is_rtl) {
             if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
-                auto v = std::stoll(var.value);
-                result.emplace(ctx.name, v);
+                // empty or out of range if there is no value
+                auto v = util::stol(var.value);
+                if (v) result.emplace(ctx.name, *v);
             }
         }
     }
-- 
2.43.0


From adba90d3f33dbe67d9d69d836a7002abbb417f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:52 +0000
Subject: [PATCH 53/73] fix: map only paths inside the mapped directory

---
 src/symbol.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index a3b9881..bfe15f0 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -18,10 +18,17 @@ auto constexpr WS_SCHEMA = "ws://";
 
 namespace hgdb {
 
+// whether the path is the directory or something in it
+bool in_directory(const std::string &path, const std::string &directory) {
+    if (!path.starts_with(directory)) return false;
+    return directory.empty() || directory.back() == '/' || path.size() == directory.size() ||
+           path[directory.size()] == '/';
+}
+
 std::string resolve(const std::string &src_path, const std::string &dst_path,
                     const std::string &target) {
     namespace fs = std::filesystem;
-    if (src_path.empty() || target.starts_with(src_path)) [[likely]] {
+    if (src_path.empty() || in_directory(target, src_path)) [[likely]] {
         std::error_code ec;
         auto path = fs::relative(target, src_path, ec);
         if (ec.value()) [[unlikely]]
@@ -203,7 +210,7 @@ std::string SymbolTableProvider::resolve_filename_to_db(const std::string &filen
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[src_path, dst_path] : src_remap_) {
-        if (filename.starts_with(src_path)) {
+        if (in_directory(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
@@ -216,7 +223,7 @@ std::string SymbolTableProvider::resolve_filename_to_client(const std::string &f
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[dst_path, src_path] : src_remap_) {
-        if (src_path.empty() || filename.starts_with(src_path)) {
+        if (src_path.empty() || in_directory(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
-- 
2.43.0


From d0849f8ef6d32bd8236581098d34a128755867e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 54/73] fix: keep merged variables in the order of their
 declaration

---
 src/db.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index d13a357..8474cf0 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1476,16 +1476,17 @@ JSONSymbolTableProvider::get_context_variables(uint32_t breakpoint_id) {  // NOL
     auto process_node = [this, &vars, &temp_vars, breakpoint_id](const db::json::ScopeEntry *pre) {
         if (pre->type == db::json::ScopeEntryType::Declaration) {
             auto const *decl = reinterpret_cast<const db::json::VarDeclEntry *>(pre);
-            for (auto const &var : decl->vars) {
-                vars.emplace_back(std::make_pair(var->name, var.get()));
+            // newest first, which is the order of the walk
+            for (auto it = decl->vars.rbegin(); it != decl->vars.rend(); it++) {
+                vars.emplace_back(std::make_pair((*it)->name, it->get()));
             }
 
         } else if (pre->type == db::json::ScopeEntryType::Assign) {
             auto const *assign = reinterpret_cast<const db::json::AssignEntry *>(pre);
             if (assign->has_index()) [[unlikely]] {
                 // need to be careful about the indexed value here
-                for (auto const &index : assign->indices) {
-                    auto const &indexed_var = index.var;
+                for (auto it = assign->indices.rbegin(); it != assign->indices.rend(); it++) {
+                    auto const &indexed_var = it->var;
                     auto instance_id = get_instance_id(breakpoint_id);
                     if (indexed_var->rtl && instance_id) {
                         if (get_symbol_value_) {
@@ -1510,8 +1511,8 @@ JSONSymbolTableProvider::get_context_variables(uint32_t breakpoint_id) {  // NOL
                     }
                 }
             } else {
-                for (auto const &var : assign->vars) {
-                    vars.emplace_back(std::make_pair(var->name, var.get()));
+                for (auto it = assign->vars.rbegin(); it != assign->vars.rend(); it++) {
+                    vars.emplace_back(std::make_pair((*it)->name, it->get()));
                 }
             }
         }
@@ -1545,14 +1546,14 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
     auto process_node = [&vars](const db::json::ScopeEntry *pre) {
         if (pre->type == db::json::ScopeEntryType::Declaration) {
             auto const *decl = reinterpret_cast<const db::json::VarDeclEntry *>(pre);
-            for (auto const &var : decl->vars) {
-                if (var->type == VariableType::delay)
-                    vars.emplace_back(std::make_pair(var->name, var.get()));
+            for (auto it = decl->vars.rbegin(); it != decl->vars.rend(); it++) {
+                if ((*it)->type == VariableType::delay)
+                    vars.emplace_back(std::make_pair((*it)->name, it->get()));
             }
 
         } else if (pre->type == db::json::ScopeEntryType::Assign) {
             auto const *assign = reinterpret_cast<const db::json::AssignEntry *>(pre);
-            bool add_delay = assign->vars[0]->type == VariableType::delay;
+            bool add_delay = false;
             if (assign->has_index()) [[unlikely]] {
                 // need to be careful about the indexed value here
                 for (auto const &indexed : assign->indices) {
@@ -1563,10 +1564,9 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
                 }
             }
 
-            if (add_delay) {
-                for (auto const &var : assign->vars) {
-                    vars.emplace_back(std::make_pair(var->name, var.get()));
-                }
+            for (auto it = assign->vars.rbegin(); it != assign->vars.rend(); it++) {
+                if (add_delay || (*it)->type == VariableType::delay)
+                    vars.emplace_back(std::make_pair((*it)->name, it->get()));
             }
         }
     };
-- 
2.43.0


From 4a7c02e72eafb672a9d9ca07e76d03512c11164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:19 +0000
Subject: [PATCH 55/73] fix: do not read an RTL name as a format string

---
 src/db.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 8474cf0..2d2fd0f 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1730,8 +1730,7 @@ private:
                             // we have found it. create a condition now
                             auto cond = fmt::format("{0} == {1}", index.var->value, *idx);
                             // and rtl value
-                            auto value =
-                                fmt::format(fmt::format("{0}[{1}]", assign.vars[0]->value, *idx));
+                            auto value = fmt::format("{0}[{1}]", assign.vars[0]->value, *idx);
                             return Info{&assign, value, cond};
                         }
                     }
-- 
2.43.0


From 94214545057641cec6588c5ff31af25bd8672895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 56/73] fix: drop the scheduler together with its symbol table

---
 src/debug.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 7b628e9..56c0fbf 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -45,9 +45,10 @@ bool Debugger::initialize_db(const std::string &filename) {
 }
 
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
-    // reset db_ for every new connection
+    // reset db_ for every new connection. the scheduler refers to the old one, so it has to go first
+    scheduler_ = nullptr;
     db_ = nullptr;
-    if (!db) return;
+    if (!db || db->bad()) return;
     db_ = std::move(db);
 
     // set up the name mapping
@@ -120,7 +121,8 @@ void Debugger::eval() {
     start_breakpoint_evaluation();  // clean the state and fetch values
 
     // main loop to fetch breakpoints
-    while (true) {
+    // there is no scheduler without a symbol table, e.g. after a failed connection
+    while (scheduler_) {
         std::vector<DebugBreakPoint *> bps;
         {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
@@ -1373,7 +1375,7 @@ void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp
 }
 
 void Debugger::start_breakpoint_evaluation() {
-    scheduler_->start_breakpoint_evaluation();
+    if (scheduler_) scheduler_->start_breakpoint_evaluation();
     cached_signal_values_.clear();
     update_delayed_values();
 }
-- 
2.43.0


From 3f993f17e4ea76b1e586edd37e57545d727cc53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 57/73] fix: keep the token when there is no symbol table

---
 src/debug.cc | 10 +++++-----
 src/debug.hh |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 56c0fbf..a563ec0 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -541,7 +541,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
@@ -582,7 +582,7 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
     if (req.bp_action() == BreakPointRequest::action::add) {
@@ -607,7 +607,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
 
 void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id) {
     // if db is not connected correctly, abort
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     auto const &filename = req.filename();
     auto const &line_num = req.line_num();
@@ -1203,10 +1203,10 @@ void Debugger::set_vendor_initial_options() {
     }
 }
 
-bool Debugger::check_send_db_error(RequestType type, uint64_t conn_id) {
+bool Debugger::check_send_db_error(const Request &req, uint64_t conn_id) {
     if (!db_) {
         // need to send error response
-        auto resp = GenericResponse(status_code::error, type,
+        auto resp = GenericResponse(status_code::error, req,
                                     "Database is not initialized or is initialized incorrectly");
         send_message(resp.str(log_enabled_), conn_id);
         return false;
diff --git a/src/debug.hh b/src/debug.hh
index fdf35dd..07fe09a 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -150,7 +150,7 @@ private:
     void set_vendor_initial_options();
 
     // common checker
-    bool check_send_db_error(RequestType type, uint64_t conn_id);
+    bool check_send_db_error(const Request &req, uint64_t conn_id);
 
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
-- 
2.43.0


From e3677bb61334ed9cc9c5a21d7734b8d271aabfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 58/73] fix: answer commands before a symbol table is loaded

---
 src/debug.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index a563ec0..0183120 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -634,6 +634,12 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
     status_code status = status_code::success;
     std::string error;
 
+    // stop has to work even if there is nothing to debug
+    if (req.command_type() != CommandRequest::CommandType::stop &&
+        !check_send_db_error(req, conn_id)) {
+        return;
+    }
+
     switch (req.command_type()) {
         case CommandRequest::CommandType::continue_: {
             log_info("handle_command: continue_");
@@ -643,8 +649,10 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
         }
         case CommandRequest::CommandType::stop: {
             log_info("handle_command: stop");
-            scheduler_->clear();
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            if (scheduler_) {
+                scheduler_->clear();
+                scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            }
             // we will unlock the lock during the stop step to ensure proper shutdown
             // of the runtime
             namespaces_.default_rtl()->finish_sim();
-- 
2.43.0


From a79adb21148ab9af561972b2b5f63519f136e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 59/73] fix: answer information requests before a symbol table
 is loaded

---
 src/debug.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 0183120..36e0724 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -704,6 +704,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
 void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case DebuggerInformationRequest::CommandType::breakpoints: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto bps = scheduler_->get_current_breakpoints();
             std::vector<const DebugBreakPoint *> bps_;
             bps_.reserve(bps.size());
@@ -748,6 +749,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             return;
         }
         case DebuggerInformationRequest::CommandType::filename: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto filenames = db_->get_filenames();
             auto resp = DebuggerInformationResponse(filenames);
             req.set_token(resp);
-- 
2.43.0


From 3cfc865f05f606f400fb820386376e14bcc810c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 60/73] fix: answer requests with ids before a symbol table is
 loaded

---
 src/debug.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 36e0724..b862e9c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -476,6 +476,8 @@ std::optional<std::string> Debugger::resolve_var_name(
     uint32_t ns_id, const std::string &var_name, const std::optional<uint64_t> &instance_id,
     const std::optional<uint64_t> &breakpoint_id) {
     std::optional<std::string> full_name;
+    // ids only make sense with a symbol table
+    if ((breakpoint_id || instance_id) && !db_) return full_name;
     if (breakpoint_id) {
         auto bp = *breakpoint_id;
         full_name = db_->resolve_scoped_name_breakpoint(var_name, bp);
@@ -801,11 +803,11 @@ DebuggerNamespace *get_namespace(std::optional<uint32_t> instance_id,
         }
     }
     std::optional<std::string> instance_name;
-    if (instance_id) {
+    if (instance_id && db) {
         instance_name = db->get_instance_name(*instance_id);
     }
 
-    if (!instance_name && breakpoint_id) {
+    if (!instance_name && breakpoint_id && db) {
         instance_name = db->get_instance_name_from_bp(*breakpoint_id);
     }
 
@@ -898,6 +900,10 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         // depends on whether it is an add or remove action
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
 
         auto &monitor = *ns->monitor;
         if (req.action_type() == MonitorRequest::ActionType::add) {
@@ -983,6 +989,7 @@ void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
 
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
     if (!ns) {
-- 
2.43.0


From 2a2c9c98e9db9b605d65f664798f9a6203610913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 61/73] fix: ignore assertions before a symbol table is loaded

---
 src/debug.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index b862e9c..4d5e538 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -178,6 +178,10 @@ void Debugger::handle_assert() {
         log_error("Invalid assertion call site");
         return;
     }
+    if (!db_) {
+        log_error("Assertion without a symbol table");
+        return;
+    }
     auto breakpoints =
         db_->get_breakpoints(assert_info->filename, assert_info->line, assert_info->column);
     if (breakpoints.empty()) {
-- 
2.43.0


From 9b628412f1a89fb2a2049038166ac48f3225c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:28 +0000
Subject: [PATCH 62/73] fix: wait for the client when there is nothing earlier
 to stop at

---
 src/debug.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 4d5e538..9587646 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -122,6 +122,8 @@ void Debugger::eval() {
 
     // main loop to fetch breakpoints
     // there is no scheduler without a symbol table, e.g. after a failed connection
+    std::vector<std::pair<const DebugBreakPoint *, uint32_t>> last_bps;
+    std::optional<uint64_t> last_time;
     while (scheduler_) {
         std::vector<DebugBreakPoint *> bps;
         {
@@ -145,6 +147,18 @@ void Debugger::eval() {
             send_monitor_values(MonitorRequest::MonitorType::breakpoint);
             // then pause the execution
             lock_.wait();
+        } else {
+            // going backwards, the scheduler stays at the earliest breakpoint if the time cannot
+            // be reversed any further. instead of trying it forever, leave it to the client
+            decltype(last_bps) current_bps;
+            current_bps.reserve(bps.size());
+            for (auto const *bp : bps) current_bps.emplace_back(bp, bp->id);
+            auto time = namespaces_.default_rtl()->get_simulation_time();
+            if (last_time == time && last_bps == current_bps) [[unlikely]] {
+                lock_.wait();
+            }
+            last_bps = std::move(current_bps);
+            last_time = time;
         }
     }
 
-- 
2.43.0


From 37fc08b400dc653ab3eebc462655cbeaa4381cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:06 +0000
Subject: [PATCH 63/73] fix: do not add the namespaces again on every
 connection

---
 src/namespace.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/namespace.cc b/src/namespace.cc
index 5de20e6..e661ece 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -33,9 +33,10 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
     auto mapping =
         default_rtl()->compute_instance_mapping(instances, default_rtl()->vpi()->has_defname());
 
-    for (auto i = 1u; i < mapping.size(); i++) {
-        add_namespace(default_rtl()->vpi());
-    }
+    // the namespaces can be there already, e.g. when a client connects again
+    mapped_namespaces_.clear();
+    while (namespaces_.size() > 1 && namespaces_.size() > mapping.size()) namespaces_.pop_back();
+    while (namespaces_.size() < mapping.size()) add_namespace(default_rtl()->vpi());
 
     for (auto i = 0u; i < mapping.size(); i++) {
         namespaces_[i]->rtl->set_mapping(mapping[i].first, mapping[i].second);
-- 
2.43.0


From 6b8cb49cb0748a2bf1e02547aef448d8d0b1be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:42 +0000
Subject: [PATCH 64/73] fix: do not lose hits when breakpoints are evaluated in
 two threads

---
 src/debug.cc | 10 +++++-----
 src/debug.hh |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9587646..ffe69ca 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1362,8 +1362,8 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
 }
 
 std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
-    std::vector<bool> hits(bps.size());
-    std::fill(hits.begin(), hits.end(), false);
+    // each thread needs its own memory locations to write to, which a vector of bool doesn't have
+    std::vector<uint8_t> hits(bps.size(), 0);
     // most of the time is on getting simulation values, so using many threads
     // doesn't make any sense
     const static auto processor_count = 2;
@@ -1393,11 +1393,11 @@ std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *
         perf::PerfCount perf_bp_threads("eval bp single thread", perf_count_);
         this->eval_breakpoint(bps, hits, 0, bps.size());
     }
-    return hits;
+    return {hits.begin(), hits.end()};
 }
 
-void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
-                               uint64_t start, uint64_t end) {
+void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps,
+                               std::vector<uint8_t> &result, uint64_t start, uint64_t end) {
     for (auto index = start; index < end; index++) {
         bool r = eval_breakpoint(bps[index]);
         result[index] = r;
diff --git a/src/debug.hh b/src/debug.hh
index 07fe09a..8e86380 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -155,7 +155,7 @@ private:
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
     bool eval_breakpoint(DebugBreakPoint *bp);
-    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                          uint64_t start, uint64_t end);
     std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
-- 
2.43.0


From 49b712a2c00aff259fa973fc2edc5998c024ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:42 +0000
Subject: [PATCH 65/73] fix: keep watching a variable that other data
 breakpoints need

---
 src/debug.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index ffe69ca..9653658 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1101,8 +1101,13 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
         }
         case DataBreakpointRequest::Action::remove: {
             auto watch_id = scheduler_->remove_data_breakpoint(req.breakpoint_id());
-            // remove from monitor as well
-            if (watch_id) {
+            // remove from monitor as well, unless other breakpoints watch the same variable
+            auto const bps = scheduler_->get_current_breakpoints();
+            auto const shared = std::any_of(bps.begin(), bps.end(), [&](auto const *bp) {
+                return watch_id && bp->has_type_flag(DebugBreakPoint::Type::data) && bp->ns_id == ns->id &&
+                       bp->watch_id == *watch_id;
+            });
+            if (watch_id && !shared) {
                 auto &monitor = ns->monitor;
                 monitor->remove_monitor_variable(*watch_id);
                 log_info(fmt::format("Remove watch variable with ID {0}", *watch_id));
-- 
2.43.0


From 025c4dff8f36e8d56b319b3fe37ce0ff3696c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:37 +0000
Subject: [PATCH 66/73] fix: forget cached values whenever a value is set

---
 src/debug.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9653658..3f3b833 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -978,13 +978,11 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         // need to set the value
         auto res = rtl->set_value(*full_name, req.value());
         if (res) {
-            // we need to remove cached value
-            if (use_signal_cache_) {
-                auto *handle = rtl->get_handle(*full_name);
+            // we need to remove cached values, which include the slices of the signal. the cache
+            // can be switched on later in the same cycle
+            {
                 std::lock_guard guard(cached_signal_values_lock_);
-                if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
-                    cached_signal_values_.erase(handle);
-                }
+                cached_signal_values_.clear();
             }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
-- 
2.43.0


From 7f2afb433e2e0b4b91562fed97af078dd3004d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 67/73] fix: show the bits of a negative value in hex

---
 src/debug.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 3f3b833..538403f 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -442,6 +442,9 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
         return Debugger::error_value_str;
     }
     if (use_hex) {
+        // show the bits of the signal, even if the value is negative
+        auto bits = static_cast<uint64_t>(*value);
+        if (width > 0 && width < 64) bits &= (1ull << width) - 1;
         std::string format;
         if (width == 0) {
             format = "0x{0:X}";
@@ -452,7 +455,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
             width = (width % 4 == 0) ? width / 4 : (width / 4 + 1);
             format = fmt::format("0x{{0:0{0}X}}", width);
         }
-        return fmt::format(format.c_str(), *value);
+        return fmt::format(format.c_str(), bits);
 
     } else {
         return fmt::format("{0}", *value);
-- 
2.43.0


From f573f2c8ab8d01aedb0c537dd47ce9d206024549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 68/73] fix: report monitored values that changed

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index 538403f..f465fec 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -163,6 +163,7 @@ void Debugger::eval() {
     }
 
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
+    send_monitor_values(MonitorRequest::MonitorType::changed);
 }
 
 [[maybe_unused]] bool Debugger::is_verilator() {
-- 
2.43.0


From 552b6b207e851ac02056a41719ccca66a729dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 69/73] fix: a breakpoint without an instance name has no
 delayed variables

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index f465fec..5bbbf87 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1540,6 +1540,7 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
     if (!bp) return;
     auto context_vars = db_->get_context_delayed_variables(bp_id);
     auto instance_name = db_->get_instance_name_from_bp(bp_id);
+    if (!instance_name) return;
     auto const &namespaces = namespaces_.get_namespaces(*instance_name);
     for (auto *ns : namespaces) {
         auto *rtl = ns->rtl.get();
-- 
2.43.0


From 0e5527073b3fc957ac70a986221f2c3016f6076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 70/73] fix: delayed values come from their own namespace

---
 src/debug.cc | 3 +++
 src/debug.hh | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 5bbbf87..6d615d8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1523,6 +1523,8 @@ void Debugger::update_delayed_values() {
             ns->monitor->get_watched_values(MonitorRequest::MonitorType::delay_clock_edge);
         for (auto &iter : delayed_variables_) {
             auto &var_info = iter.second;
+            // watch ids are local to each namespace
+            if (var_info.ns_id != ns->id) continue;
             auto pos = std::find_if(values.begin(), values.end(), [&var_info](auto const &iter) {
                 return iter.first == var_info.watch_id;
             });
@@ -1559,6 +1561,7 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
                 DelayedVariable delayed_var;
                 delayed_var.rtl_name = rtl_name;
                 delayed_var.watch_id = watch_id;
+                delayed_var.ns_id = ns->id;
                 auto *handle = rtl->get_handle(rtl_name);
                 if (handle) {
                     delayed_variables_.emplace(handle, delayed_var);
diff --git a/src/debug.hh b/src/debug.hh
index 8e86380..6e37ca2 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -82,6 +82,7 @@ private:
         std::string rtl_name;
         std::optional<int64_t> value;
         uint64_t watch_id;
+        uint32_t ns_id;
     };
     std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
 
-- 
2.43.0


From 5628ff15e2f0f5790e75ec6b01913e693f74ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:34 +0000
Subject: [PATCH 71/73] fix: the same signal can be shown with different delays

---
 src/debug.cc | 25 +++++++++++--------------
 src/debug.hh |  8 ++++----
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 6d615d8..e294563 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -465,7 +465,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
 
 // NOLINTNEXTLINE
 std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                                    bool use_delay) {
+                                    std::optional<uint32_t> delay) {
     std::string value_str;
     if (is_rtl) {
         auto &rtl = namespaces_[ns_id]->rtl;
@@ -477,12 +477,13 @@ std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name,
             width = width_opt ? *width_opt : 0u;
         }
 
-        if (use_delay) {
-            if (delayed_variables_.find(handle) == delayed_variables_.end()) [[unlikely]] {
+        if (delay) {
+            auto it = delayed_variables_.find({handle, *delay});
+            if (it == delayed_variables_.end()) [[unlikely]] {
                 log_error("Internal error on handling delayed variables");
                 value_str = error_value_str;
             } else {
-                value_str = value_to_str(delayed_variables_.at(handle).value, use_hex_str_, width);
+                value_str = value_to_str(it->second.value, use_hex_str_, width);
             }
         } else {
             auto value = rtl->get_value(handle);
@@ -1192,9 +1193,10 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
             auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
-                std::string value_str =
-                    get_value_str(bp->ns_id, rtl_name, var.is_rtl,
-                                  static_cast<VariableType>(ctx_var.type) == VariableType::delay);
+                std::optional<uint32_t> delay;
+                if (static_cast<VariableType>(ctx_var.type) == VariableType::delay)
+                    delay = ctx_var.depth;
+                std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl, delay);
                 scope.add_local_value(front_name, value_str);
             }
         }
@@ -1301,8 +1303,7 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
     return full_name;
 }
 
-std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                                  bool use_delayed) {
+std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle) {
     // assume the name is already elaborated/mapped
     if (use_signal_cache_) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
@@ -1312,10 +1313,6 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     }
     // need to actually get the value
     std::optional<int64_t> value;
-    if (use_delayed && delayed_variables_.find(handle) != delayed_variables_.end()) [[unlikely]] {
-        return delayed_variables_.at(handle).value;
-    }
-
     value = namespaces_[ns_id]->rtl->get_value(handle);
 
     if (!value)
@@ -1564,7 +1561,7 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
                 delayed_var.ns_id = ns->id;
                 auto *handle = rtl->get_handle(rtl_name);
                 if (handle) {
-                    delayed_variables_.emplace(handle, delayed_var);
+                    delayed_variables_.emplace(std::make_pair(handle, ctx.depth), delayed_var);
                 }
             }
         }
diff --git a/src/debug.hh b/src/debug.hh
index 6e37ca2..dc81151 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -84,7 +84,8 @@ private:
         uint64_t watch_id;
         uint32_t ns_id;
     };
-    std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
+    // the same signal can be delayed by different amount
+    std::map<std::pair<vpiHandle, uint32_t>, DelayedVariable> delayed_variables_;
 
     // options
     // if in single thread mode, instances with the same fn/ln won't be evaluated as a batch
@@ -120,7 +121,7 @@ private:
     bool has_cli_flag(const std::string &flag);
     [[nodiscard]] static std::string get_monitor_topic(uint64_t watch_id);
     std::string get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                              bool use_delay = false);
+                              std::optional<uint32_t> delay = std::nullopt);
     std::optional<std::string> resolve_var_name(uint32_t ns_id, const std::string &var_name,
                                                 const std::optional<uint64_t> &instance_id,
                                                 const std::optional<uint64_t> &breakpoint_id);
@@ -163,8 +164,7 @@ private:
     void start_breakpoint_evaluation();
 
     // cached wrapper
-    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                            bool use_delayed = false);
+    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle);
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
     // callbacks
-- 
2.43.0


From a49fdeaad4705df571b6b83d46dc3dab45238ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 72/73] fix: show the value of the variable itself when names
 clash

---
 src/debug.cc  | 43 +++++++++++++++----------------------------
 src/symbol.cc |  1 -
 src/symbol.hh |  3 +++
 3 files changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index e294563..9c7b514 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1123,30 +1123,14 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
     }
 }
 
-std::vector<std::pair<std::string, std::string>> resolve_generator_name(std::string rtl_name_base,
-                                                                        const std::string &var_name,
-                                                                        uint32_t instance_id,
-                                                                        RTLSimulatorClient *rtl,
-                                                                        SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_instance(rtl_name_base, instance_id);
-        if (v) rtl_name_base = *v;
-    }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
-}
-
-std::vector<std::pair<std::string, std::string>> resolve_context_name(std::string rtl_name_base,
-                                                                      const std::string &var_name,
-                                                                      uint32_t bp_id,
-                                                                      RTLSimulatorClient *rtl,
-                                                                      SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_breakpoint(rtl_name_base, bp_id);
-        if (v) rtl_name_base = *v;
-    }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
+// the value of an RTL variable is a name in the RTL, relative to the instance. it has nothing to do
+// with the names in the source code, which may well be the same for different variables
+std::string get_rtl_name(const std::string &value, bool is_rtl,
+                         const std::optional<std::string> &instance_name, RTLSimulatorClient *rtl) {
+    if (!is_rtl || !instance_name || rtl->is_absolute_path(value) ||
+        in_instance(value, *instance_name))
+        return value;
+    return fmt::format("{0}.{1}", *instance_name, value);
 }
 
 void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &bps) {
@@ -1181,8 +1165,9 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         using namespace std::string_literals;
         for (auto const &[gen_var, var] : generator_values) {
             // maybe need to resolve the name based on the variable
-            auto var_names =
-                resolve_generator_name(var.value, gen_var.name, bp->instance_id, rtl, db_.get());
+            auto var_names = rtl->resolve_rtl_variable(
+                gen_var.name,
+                get_rtl_name(var.value, var.is_rtl, db_->get_instance_name(bp->instance_id), rtl));
             for (auto const &[front_name, rtl_name] : var_names) {
                 std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl);
                 scope.add_generator_value(front_name, value_str);
@@ -1190,7 +1175,8 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         }
 
         for (auto const &[ctx_var, var] : context_values) {
-            auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
+            auto var_names = rtl->resolve_rtl_variable(
+                ctx_var.name, get_rtl_name(var.value, var.is_rtl, instance_name, rtl));
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
                 std::optional<uint32_t> delay;
@@ -1547,7 +1533,8 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
         auto func = [this, bp]() { return eval_breakpoint(bp); };
 
         for (auto const &[ctx, v] : context_vars) {
-            auto var_names = resolve_context_name(v.value, ctx.name, bp_id, rtl, db_.get());
+            auto var_names = rtl->resolve_rtl_variable(
+                ctx.name, get_rtl_name(v.value, v.is_rtl, instance_name, rtl));
             for (auto const &[front_var, rtl_name] : var_names) {
                 // we really don't care about front end name
                 // get current value as initialization. this allows the breakpoint next cycle
diff --git a/src/symbol.cc b/src/symbol.cc
index bfe15f0..27898d4 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -59,7 +59,6 @@ bool rtl_equivalent(const std::string &a, const std::string &b) {
     return true;
 }
 
-// whether the RTL name is a full name below (or of) the instance
 bool in_instance(const std::string &rtl_name, const std::string &inst_name) {
     if (!rtl_name.starts_with(inst_name)) return false;
     return rtl_name.size() == inst_name.size() || rtl_name[inst_name.size()] == '.' ||
diff --git a/src/symbol.hh b/src/symbol.hh
index 9c36fd4..0817ee8 100644
--- a/src/symbol.hh
+++ b/src/symbol.hh
@@ -75,6 +75,9 @@ private:
     uint32_t id_allocator_ = std::numeric_limits<uint32_t>::max();
 };
 
+// whether the RTL name is a full name below (or of) the instance
+bool in_instance(const std::string &rtl_name, const std::string &inst_name);
+
 // based on the schema we make different symbol table
 std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &filename);
 
-- 
2.43.0


From 3c67960e963029424df72a412ccdb516af5e6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:33 +0000
Subject: [PATCH 73/73] fix: ids beyond 32 bits name no breakpoint and no
 instance

---
 src/db.cc     | 2 ++
 src/symbol.cc | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 2d2fd0f..a360336 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1,6 +1,7 @@
 #include "db.hh"
 
 #include <filesystem>
+#include <limits>
 #include <regex>
 #include <unordered_set>
 
@@ -1374,6 +1375,7 @@ private:
 
 const db::json::Instance *get_instance(
     uint64_t breakpoint_id, const std::vector<std::shared_ptr<db::json::Instance>> &roots) {
+    if (breakpoint_id > std::numeric_limits<uint32_t>::max()) return nullptr;
     for (auto const &root : roots) {
         InstanceByBpIDVisitor v(breakpoint_id);
         v.visit(*root);
diff --git a/src/symbol.cc b/src/symbol.cc
index 27898d4..724b41e 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -1,6 +1,7 @@
 #include "symbol.hh"
 
 #include <filesystem>
+#include <limits>
 #include <mutex>
 
 #include "asio.hpp"
@@ -67,6 +68,8 @@ bool in_instance(const std::string &rtl_name, const std::string &inst_name) {
 
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     const std::string &scoped_name, uint64_t breakpoint_id) {
+    // ids are 32 bits wide
+    if (breakpoint_id > std::numeric_limits<uint32_t>::max()) return std::nullopt;
     auto vars = get_context_variables(breakpoint_id);
     auto inst_name = get_instance_name_from_bp(breakpoint_id);
     if (!inst_name) return std::nullopt;
@@ -94,6 +97,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
 
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     const std::string &scoped_name, uint64_t instance_id) {
+    if (instance_id > std::numeric_limits<uint32_t>::max()) return std::nullopt;
     auto vars = get_generator_variable(instance_id);
     auto inst_name = get_instance_name(instance_id);
     if (!inst_name) return std::nullopt;
-- 
2.43.0

