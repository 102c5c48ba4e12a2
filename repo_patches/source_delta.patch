From 0d1b2e9fd24221fd33896c487d935d9e1370bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 01/50] fix: a range parameter is satisfiable whenever it is
 not empty

The extra condition on the remainder of the start by the step made ranges such
as [7, 8) with step 10 unsatisfiable, although they contain their start.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index e38052d..489991f 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -401,7 +401,7 @@ namespace nil {
                 : start(start), finish(finish_), step(step) {}
 
             bool is_satisfiable() override {
-                return start < finish && std::abs(start - finish) >= int(start % step);
+                return start < finish;
             }
 
             bool check_manifest_param(std::uint32_t value, bool strict = true) override {
-- 
2.43.0


From 5b23e0dd5c53f977d38474087338dbadf4de887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 02/50] fix: compute the maximum of a range parameter relative
 to its start

The maximum was only correct for ranges starting at a multiple of the step.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 489991f..2eb6a34 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -436,7 +436,7 @@ namespace nil {
             }
 
             std::uint32_t max_value_if_sat() const override {
-                return finish - ((finish % step) ? (finish % step) : step);
+                return finish - 1 - (finish - 1 - start) % step;
             }
 
             // Isn't strict equality: some ranges are isomorphic, and we don't check that.
-- 
2.43.0


From daf5b90c7c82511c4de572e3d729b7c099427683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 03/50] fix: iterating over an empty range parameter yields
 nothing

---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 2eb6a34..93fe892 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -423,7 +423,7 @@ namespace nil {
             }
 
             manifest_param_iterator begin() const override {
-                return manifest_param_iterator(this, start);
+                return manifest_param_iterator(this, start < finish ? start : finish);
             }
 
             manifest_param_iterator end() const override {
-- 
2.43.0


From 72f3e20922dc39a0ad092121f5a3682a0f859b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 04/50] fix: non-strict check of a set parameter compares with
 its minimum

As for the other parameter types, a non-strict check has to accept an amount
which is sufficient for some element of the set. It accepted amounts smaller
than every element and rejected amounts larger than every element.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 93fe892..f56586e 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -461,7 +461,7 @@ namespace nil {
                 if (strict) {
                     return set.find(value) != set.end();
                 } else {
-                    return set.lower_bound(value) != set.end();
+                    return !set.empty() && *set.begin() <= value;
                 }
             }
 
-- 
2.43.0


From a5de67de2da494a2dd7abcd4ff01ad070479ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 05/50] fix: changing the maximum witness amount of a compiler
 manifest keeps it inclusive

The setter used an exclusive bound, unlike the constructor.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index f56586e..25e80bb 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -970,7 +970,7 @@ namespace nil {
 
             void set_max_witness_amount(std::uint32_t max) {
                 max_witness_columns = max;
-                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max));
+                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max + 1));
             }
 
             std::uint32_t get_max_witness_amount() const {
-- 
2.43.0


From fd63558d3040212aaacf955ca9f850e286b8fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 06/50] fix: ranges with equal steps and different remainders
 do not intersect

---
 include/nil/blueprint/manifest.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 25e80bb..ac8e2da 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -728,6 +728,9 @@ namespace nil {
                 std::uint32_t other_step = other_range->step;
                 std::int32_t new_start, new_finish, new_step;
                 if (step == other_step) {
+                    if ((start - other_start) % int(step) != 0) {
+                        return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                    }
                     new_start = std::max(start, other_start);
                     new_finish = std::min(finish, other_finish);
                     new_step = step;
-- 
2.43.0


From aeb890ca6313d70f2a49fcced582e77ce31d7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 07/50] fix: subtracting values at the end of a range keeps the
 remaining ones

The last remaining value was dropped, because the end of a range is exclusive,
and the end was only found for ranges starting at a multiple of the step.
---
 include/nil/blueprint/manifest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index ac8e2da..0cb91d0 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -807,7 +807,7 @@ namespace nil {
 
                 bool end_contigious = false;
                 count = 0;
-                curr_value = finish - finish % step;
+                curr_value = max_value_if_sat();
                 for (auto it = filtered_set.rbegin(); it != filtered_set.rend(); it++) {
                     if (*it != std::uint32_t(curr_value)) {
                         break;
@@ -819,7 +819,7 @@ namespace nil {
                 end_contigious = count == filtered_set.size();
                 if (end_contigious) {
                     if (curr_value > start) {
-                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value, step));
+                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value + 1, step));
                     } else if (curr_value == start) {
                         return std::shared_ptr<manifest_param>(new manifest_single_value_param(start));
                     } else {
-- 
2.43.0


From 7336ba78bf8f511b5a795d734c7066dd217fc4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 08/50] fix: merge parameters relative to the start of a range,
 and with empty parameters

Merging a value with a range assumed that the range starts at a multiple of its
step. An empty range or set is unsatisfiable and stays so after merging.
---
 include/nil/blueprint/manifest.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 0cb91d0..9ae0c47 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -435,6 +435,14 @@ namespace nil {
                 return (prev_value + step < std::uint32_t(finish)) ? (prev_value + step) : finish;
             }
 
+            // The smallest element of the unbounded continuation of the range which is not less than the value
+            std::int32_t first_not_less(std::int32_t value) const {
+                if (value <= start) {
+                    return start;
+                }
+                return start + (value - start + int(step) - 1) / int(step) * int(step);
+            }
+
             std::uint32_t max_value_if_sat() const override {
                 return finish - 1 - (finish - 1 - start) % step;
             }
@@ -553,6 +561,9 @@ namespace nil {
                 }
             } else if (other_type == type::SET) {
                 const std::set<std::uint32_t> &other_set = dynamic_cast<manifest_set_param*>(other.get())->set;
+                if (other_set.empty()) {
+                    return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                }
                 std::set<std::uint32_t> new_set;
                 for (auto it = other_set.lower_bound(this->value); it != other_set.end(); it++) {
                     new_set.insert(*it);
@@ -563,9 +574,10 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_set_param(new_set));
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    this->value + (range->step - (this->value % range->step)) % range->step,
-                    range->start);
+                if (!range->is_satisfiable()) {
+                    return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                }
+                std::uint32_t new_start = range->first_not_less(this->value);
                 if (new_start < std::uint32_t(range->finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, range->finish, range->step));
@@ -579,7 +591,7 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_set_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 auto other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
@@ -636,13 +648,11 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_range_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 std::uint32_t other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    other_value + (step - (other_value % step)) % step,
-                    start);
+                std::uint32_t new_start = first_not_less(other_value);
                 if (new_start < std::uint32_t(finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, finish, step));
-- 
2.43.0


From 4234be9866506dbc70334fb082491c151f123ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 09/50] fix: merging a set with a range dereferenced the end of
 the set

If all elements of the set are below the range, the merged parameter is the
range. Elements of the range are counted from its start.
---
 include/nil/blueprint/manifest.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 9ae0c47..61e739e 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -625,15 +625,14 @@ namespace nil {
                 }
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *set.lower_bound(range->start),
-                    range->start);
-                std::set<std::uint32_t> new_set = {new_start};
+                auto first = set.lower_bound(range->start);
+                std::uint32_t new_start = first != set.end() ? *first : range->start;
+                std::set<std::uint32_t> new_set;
                 for (auto it = set.lower_bound(new_start); it != set.end(); it++) {
                     new_set.insert(*it);
                 }
                 std::uint32_t step = range->step;
-                for (auto it = new_start + (step - new_start % step) % step; std::int32_t(it) < range->finish; it += step) {
+                for (std::uint32_t it = range->first_not_less(new_start); std::int32_t(it) < range->finish; it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
@@ -661,14 +660,13 @@ namespace nil {
                 }
             } else if (other_type == type::SET) {
                 auto other_set = dynamic_cast<manifest_set_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *other_set->set.lower_bound(start),
-                    start);
-                std::set<std::uint32_t> new_set = {new_start};
+                auto first = other_set->set.lower_bound(start);
+                std::uint32_t new_start = first != other_set->set.end() ? *first : start;
+                std::set<std::uint32_t> new_set;
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
                 }
-                for (auto it = new_start + (step - new_start % step) % step; it < std::uint32_t(finish); it += step) {
+                for (std::uint32_t it = first_not_less(new_start); it < std::uint32_t(finish); it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
-- 
2.43.0


From 35b0150a1cdc2413c0609943a44b20789f87c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:46 +0000
Subject: [PATCH 10/50] fix: merge ranges with equal steps and different
 remainders into a set

---
 include/nil/blueprint/manifest.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 61e739e..d225b3e 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -681,7 +681,7 @@ namespace nil {
                     other_range->start);
                 // technically, there are some other cases there this might be resolved as range
                 // this might be good enough though
-                if (step == other_range->step) {
+                if (step == other_range->step && (start - other_range->start) % int(step) == 0) {
                     std::int32_t new_finish = std::max(finish, other_range->finish);
                     if (new_start < new_finish) {
                         return std::shared_ptr<manifest_param>(
@@ -694,14 +694,14 @@ namespace nil {
                 } else if (new_start >= finish) {
                     return std::shared_ptr<manifest_param>(new manifest_range_param(other_range->start, other_range->finish, other_range->step));
                 }
-                std::set<std::uint32_t> new_set = {std::uint32_t(new_start)};
+                std::set<std::uint32_t> new_set;
                 for (auto value : *this) {
-                    if (value > std::uint32_t(new_start)) {
+                    if (value >= std::uint32_t(new_start)) {
                         new_set.insert(value);
                     }
                 }
                 for (auto value : *other_range) {
-                    if (value > std::uint32_t(new_start)) {
+                    if (value >= std::uint32_t(new_start)) {
                         new_set.insert(value);
                     }
                 }
-- 
2.43.0


From 6bdfec98b34837dade4b0087d201790e6ac4969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:55 +0000
Subject: [PATCH 11/50] fix: assign tasks of zero size even if there are no
 others

With all sizes equal to zero the search interval was empty, and no task was
assigned to any agent.
---
 include/nil/blueprint/detail/huang_lu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/huang_lu.hpp b/include/nil/blueprint/detail/huang_lu.hpp
index bf17350..db6d9b3 100644
--- a/include/nil/blueprint/detail/huang_lu.hpp
+++ b/include/nil/blueprint/detail/huang_lu.hpp
@@ -49,7 +49,7 @@ namespace nil {
                     }
                     std::size_t left = std::max((sum + agent_amount - 1) / agent_amount,
                                                 max_item);
-                    std::size_t right = 2 * left;
+                    std::size_t right = std::max<std::size_t>(2 * left, 1);
                     std::unordered_map<std::size_t, std::size_t> best_assignment;
                     std::unordered_map<std::size_t, std::size_t> assignment;
                     std::list<std::pair<std::size_t, std::size_t>> tasks_remaning;
-- 
2.43.0


From 7736babd605b163bfe89ac46958168c448256742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:55 +0000
Subject: [PATCH 12/50] fix: parse hexadecimal table values of any size up to
 the field modulus

A hexadecimal digit carries 4 bits. With the limit of one digit per 16 bits,
longer values were silently split into several columns.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 8e80698..263dc6d 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -55,7 +55,7 @@ namespace nil {
                         using boost::phoenix::construct;
                         using boost::phoenix::val;
                         auto number = uint_parser<integral_type, 16, 1,
-                                                  (BlueprintFieldType::modulus_bits + 16 - 1) / 16>();
+                                                  (BlueprintFieldType::modulus_bits + 4 - 1) / 4>();
                         start = repeat(size)[number];
 
                         boost::spirit::qi::on_error<boost::spirit::qi::fail>(
-- 
2.43.0


From 4e3f8b04a78e0d45fa1c4315e93c6875718c3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:55 +0000
Subject: [PATCH 13/50] fix: report a malformed table header as a parsing
 failure

The exception thrown for a header which is not a number prevented the loader
from trying the remaining candidate files.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 263dc6d..9391668 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -77,7 +77,11 @@ namespace nil {
                     std::string line;
                     // Get the table size
                     std::getline(ist, line);
-                    std::size_t table_size = std::stoull(line);
+                    std::istringstream header(line);
+                    std::size_t table_size;
+                    if (!(header >> table_size)) {
+                        return false;
+                    }
                     result.resize(line_size);
                     for (auto &column : result) {
                         column.resize(table_size);
-- 
2.43.0


From 82d2f7b951c7a6f40306a4038c9acd948b78719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:47 +0000
Subject: [PATCH 14/50] fix: square root and exponentiation use the columns
 they are given

---
 .../components/algebra/fields/plonk/exponentiation.hpp      | 6 +++---
 .../nil/blueprint/components/algebra/fields/plonk/sqrt.hpp  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
index 35584b4..d4c2f84 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
@@ -230,7 +230,7 @@ namespace nil {
 
                         // we use first empty row to unify first row gate with others
                         assignment.witness(component.W(1), start_row_index) = 0u;
-                        assignment.witness(component.intermediate_start + component.intermediate_results_per_row - 1, start_row_index) = 1u;
+                        assignment.witness(component.W(component.intermediate_start + component.intermediate_results_per_row - 1), start_row_index) = 1u;
                         std::size_t start_row_padded = start_row_index + 1;
 
                         std::size_t current_bit = 0;
@@ -325,8 +325,8 @@ namespace nil {
 
                        	using var = typename plonk_exponentiation<BlueprintFieldType, ExponentSize>::var;
 
-                        var zero(component.W(0), start_row_index, false, var::column_type::constant);
-                        var one(component.W(0), start_row_index + 1, false, var::column_type::constant);
+                        var zero(component.C(0), start_row_index, false, var::column_type::constant);
+                        var one(component.C(0), start_row_index + 1, false, var::column_type::constant);
 
                         for (std::size_t row = start_row_index + 1; row < start_row_index + component.rows_amount; row++) {
                             bp.add_copy_constraint({{component.W(0), static_cast<int>(row), false}, instance_input.base});
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
index e0e2faa..f74a820 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
@@ -318,7 +318,7 @@ namespace nil {
                 }
 
                 auto mul_instance = mul_component({component.W(0), component.W(1), component.W(2)}, {}, {});
-                var x(0, row, false);
+                var x(component.W(0), row, false);
                 var x_squared = generate_assignments(mul_instance, assignment, {x, x}, row).output;
                 row += mul_instance.rows_amount;
 
-- 
2.43.0


From eb8c0307d0ede581da8d2cd7fd58324a4608decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:59 +0000
Subject: [PATCH 15/50] fix: lookup logic operations have an include guard of
 their own

---
 .../algebra/fields/plonk/non_native/lookup_logic_ops.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
index 0fb8aac..b8796d0 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
@@ -22,8 +22,8 @@
 // SOFTWARE.
 //---------------------------------------------------------------------------//
 
-#ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
-#define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
+#ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
+#define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
 
 #include <nil/marshalling/algorithms/pack.hpp>
 
@@ -200,4 +200,4 @@ namespace nil {
     }        // namespace blueprint
 }    // namespace nil
 
-#endif    // CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
+#endif    // CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
-- 
2.43.0


From 7259c974cd4f46ddd99b1aa3039c7c160d1347f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:37 +0000
Subject: [PATCH 16/50] fix: comparison flag checks the first chunk also when
 it is the last one of its gate

---
 .../algebra/fields/plonk/non_native/comparison_flag.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 44dee4f..e76cb96 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -769,12 +769,16 @@ namespace nil {
                     // we don't check that x and y fit into 2^{bits_amount}.
                     std::vector<constraint_type> first_chunk_range_constraints;
 
-                    var size_constraint_var = var(component.W(3 + 2 * component.padding_size), 0, true);
+                    // The last chunk of each gate instance is in the first two columns.
+                    std::size_t first_chunk_column =
+                        component.padding_size + 1 == component.comparisons_per_gate_instance ?
+                            0 : 3 + 2 * component.padding_size;
+                    var size_constraint_var = var(component.W(first_chunk_column), 0, true);
                     constraint_type first_chunk_range_constraint = generate_chunk_size_constraint(
                         size_constraint_var, component.bits_amount % component.chunk_size);
                     first_chunk_range_constraints.push_back(first_chunk_range_constraint);
 
-                    size_constraint_var = var(component.W(3 + 2 * component.padding_size + 1), 0, true);
+                    size_constraint_var = var(component.W(first_chunk_column + 1), 0, true);
                     first_chunk_range_constraint =
                         generate_chunk_size_constraint(size_constraint_var,
                                                        component.bits_amount % component.chunk_size);
-- 
2.43.0


From c3bc3c6325a60ceb74c2afdd05b519b9f71033bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:24 +0000
Subject: [PATCH 17/50] fix: a gate given as a single constraint is the same as
 one given as a list of one

---
 include/nil/blueprint/gate_id.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index 763862f..e7a85f5 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -230,8 +230,8 @@ namespace nil {
 
             gate_id(const constraint_type constraint) : selector_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             gate_id(const std::initializer_list<constraint_type> &&constraints) : selector_index(0) {
@@ -337,8 +337,8 @@ namespace nil {
 
             lookup_gate_id(const constraint_type &constraint) : tag_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             lookup_gate_id(const std::initializer_list<constraint_type> &&constraints) : tag_index(0) {
-- 
2.43.0


From 93e01422882b5a48daaa5e31d3186d61aeefbd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:24 +0000
Subject: [PATCH 18/50] fix: lookups of constant zero in different tables are
 different lookup gates

---
 include/nil/blueprint/gate_id.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index e7a85f5..7a71fe8 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -288,7 +288,8 @@ namespace nil {
             std::size_t tag_index;
         public:
             std::pair<value_type, value_type> eval_constraint(const constraint_type& constraint) const {
-                value_type value_1 = BlueprintFieldType::value_type::zero(), value_2 = BlueprintFieldType::value_type::zero();
+                // Not zero, otherwise lookups of zeros would not depend on the table.
+                value_type value_1 = BlueprintFieldType::value_type::one(), value_2 = BlueprintFieldType::value_type::one();
                 for (std::size_t i = 0; i < constraint.lookup_input.size(); i++) {
                     nil::crypto3::math::expression_evaluator<var> evaluator_1(
                         constraint.lookup_input[i],
-- 
2.43.0


From b76551baa9d97d5737f15afb2b004bcfbbdc64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:34 +0000
Subject: [PATCH 19/50] fix: satisfiability check looks up only in the rows of
 the named subtable

---
 include/nil/blueprint/utils/satisfiability_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/utils/satisfiability_check.hpp b/include/nil/blueprint/utils/satisfiability_check.hpp
index 2f8799e..db61a24 100644
--- a/include/nil/blueprint/utils/satisfiability_check.hpp
+++ b/include/nil/blueprint/utils/satisfiability_check.hpp
@@ -197,7 +197,7 @@ namespace nil {
                                 // We can cache it with sorting, or use KMP, but I need a simple solution first
                                 bool found = false;
                                 BOOST_ASSERT(columns_number == input_values.size());
-                                for (std::size_t k = 0; k < table[0].size(); k++) {
+                                for (std::size_t k = subtable.begin; k <= subtable.end && k < table[0].size(); k++) {
                                     bool match = true;
                                     for (std::size_t l = 0; l < columns_number; l++) {
                                         if (table[subtable.column_indices[l]][k] != input_values[l]) {
-- 
2.43.0


From 6d6dd0a59a868826455c9d11723baf45f1405234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:22 +0000
Subject: [PATCH 20/50] fix: keep constants read by gates when batched
 constants are placed

---
 .../nil/blueprint/blueprint/plonk/assignment.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index df9e40e..2de1ffb 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -242,12 +242,18 @@ namespace nil {
                     auto var_check = [const_column, start_row_index](const var &variable) -> bool {
                         return variable.type == var::column_type::constant &&
                                 variable.index == const_column &&
-                                variable.rotation >= start_row_index;
+                                (variable.relative || variable.rotation >= start_row_index);
+                    };
+                    auto mark_used = [&used_constants, start_row_index](std::size_t row, const var &variable) {
+                        const std::size_t used_row = variable.relative ? row + variable.rotation : variable.rotation;
+                        if (used_row >= start_row_index && used_row - start_row_index < used_constants.size()) {
+                            used_constants[used_row - start_row_index] = true;
+                        }
                     };
                     for (const auto &constraint : immutable_copy_constraints) {
                         for (const auto variable : {&(constraint.first), &(constraint.second)}) {
                             if (var_check(*variable)) {
-                                used_constants[variable->rotation - start_row_index] = true;
+                                mark_used(0, *variable);
                             }
                         }
                     }
@@ -268,7 +274,7 @@ namespace nil {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.selector_index); row++) {
                                 if (this->selector(gate.selector_index, row) == value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(row, variable);
                                 }
                             }
                         }
@@ -292,7 +298,7 @@ namespace nil {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.tag_index); row++) {
                                 if (this->selector(gate.tag_index, row) == BlueprintFieldType::value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(row, variable);
                                 }
                             }
                         }
-- 
2.43.0


From bd79ff4afd9ed2f06f1ec7da52aec59057489e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:23 +0000
Subject: [PATCH 21/50] fix: do not count dropped copy constraints as used by a
 prover

---
 include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 5373578..8a3bb02 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -202,8 +202,9 @@ namespace nil {
             }
 
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
+                const std::size_t copy_constraints_size = circuit_ptr->copy_constraints().size();
                 circuit_ptr->add_copy_constraint(copy_constraint);
-                if (circuit_ptr->copy_constraints().size() > 0) {
+                if (circuit_ptr->copy_constraints().size() > copy_constraints_size) {
                     used_copy_constraints.insert(circuit_ptr->copy_constraints().size() - 1);
                 }
             }
-- 
2.43.0


From e5960eb01b5ae23934df943a22da9acc35de6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:23 +0000
Subject: [PATCH 22/50] fix: export the last selector column of a prover's
 table

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 0f26a65..45baf12 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -408,7 +408,7 @@ namespace nil {
                     }
                     os << "| ";
                     // Selectors only need a single bit, so we do not renew the size here
-                    for (std::uint32_t j = 0; j < selectors_size - 1; j++) {
+                    for (std::uint32_t j = 0; j < selectors_size; j++) {
                         os << (i < assignment_ptr->selector_column_size(j) ?
                                assignment_ptr->selector(j, i) : 0).data << " ";
                     }
-- 
2.43.0


From 5c02c1ac0f1605e9861773980128dd3b77cd10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:07 +0000
Subject: [PATCH 23/50] fix: pass gates on existing selectors and dynamic
 tables of a prover on to the common circuit

---
 .../nil/blueprint/blueprint/plonk/circuit.hpp |  2 +-
 .../blueprint/plonk/circuit_proxy.hpp         | 41 +++++++++++++++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit.hpp b/include/nil/blueprint/blueprint/plonk/circuit.hpp
index 999bf92..21cbbb9 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit.hpp
@@ -201,7 +201,7 @@ namespace nil {
                 _lookup_library.reserve_dynamic_table(name);
             }
 
-            std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
+            virtual std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
                 return _lookup_library.get_dynamic_table_definition(name);
             }
 
diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 8a3bb02..687f7f0 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -46,6 +46,7 @@ namespace nil {
             using constraint_type = crypto3::zk::snark::plonk_constraint<BlueprintFieldType>;
             using lookup_constraint_type = crypto3::zk::snark::plonk_lookup_constraint<BlueprintFieldType>;
             using lookup_table_definition = typename nil::crypto3::zk::snark::lookup_table_definition<BlueprintFieldType>;
+            using dynamic_table_definition = typename nil::crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>;
 
             std::shared_ptr<circuit<ArithmetizationType>> circuit_ptr;
             std::uint32_t id;
@@ -169,6 +170,22 @@ namespace nil {
                 return selector_index;
             }
 
+            std::size_t add_gate(std::size_t selector_id, const std::vector<constraint_type> &args) override {
+                circuit_ptr->add_gate(selector_id, args);
+                used_gates.insert(circuit_ptr->gates().size() - 1);
+                return selector_id;
+            }
+
+            std::size_t add_lookup_gate(std::size_t selector_id, const std::vector<lookup_constraint_type> &args) override {
+                circuit_ptr->add_lookup_gate(selector_id, args);
+                used_lookup_gates.insert(circuit_ptr->lookup_gates().size() - 1);
+                return selector_id;
+            }
+
+            std::size_t get_dynamic_lookup_table_selector() override {
+                return circuit_ptr->get_dynamic_lookup_table_selector();
+            }
+
             const typename ArithmetizationType::lookup_table_type &lookup_table(std::size_t table_id) const override {
                 return circuit_ptr->lookup_table(table_id);
             }
@@ -181,12 +198,31 @@ namespace nil {
                 circuit_ptr->register_lookup_table(table);
             }
 
+            void register_dynamic_table(std::string name) override {
+                circuit_ptr->register_dynamic_table(name);
+            }
+
             void reserve_table(std::string name) override {
                 circuit_ptr->reserve_table(name);
                 const auto idx = circuit_ptr->get_reserved_indices().at(name) - 1;
                 used_lookup_tables.insert(idx);
             }
 
+            void reserve_dynamic_table(std::string name) override {
+                circuit_ptr->reserve_dynamic_table(name);
+                const auto idx = circuit_ptr->get_reserved_indices().at(name) - 1;
+                used_lookup_tables.insert(idx);
+            }
+
+            std::shared_ptr<dynamic_table_definition> get_dynamic_table_definition(std::string name) override {
+                return circuit_ptr->get_dynamic_table_definition(name);
+            }
+
+            void define_dynamic_table(std::string name,
+                                      const crypto3::zk::snark::plonk_lookup_table<BlueprintFieldType> &table) override {
+                circuit_ptr->define_dynamic_table(name, table);
+            }
+
             const typename lookup_library<BlueprintFieldType>::left_reserved_type
                     &get_reserved_indices() const override {
                 return circuit_ptr->get_reserved_indices();
@@ -201,6 +237,11 @@ namespace nil {
                 return circuit_ptr->get_reserved_tables();
             }
 
+            const std::map<std::string, std::shared_ptr<dynamic_table_definition>> &
+                    get_reserved_dynamic_tables() const override {
+                return circuit_ptr->get_reserved_dynamic_tables();
+            }
+
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
                 const std::size_t copy_constraints_size = circuit_ptr->copy_constraints().size();
                 circuit_ptr->add_copy_constraint(copy_constraint);
-- 
2.43.0


From 00620d8b6c3a997e2681b0b80d376e3806cfeb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:19 +0000
Subject: [PATCH 24/50] fix: evaluate the gates of a prover on the table it
 refers to

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 45baf12..e7f5f6b 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -455,7 +455,9 @@ namespace nil {
 
             const auto& selector_rows = assignments.get_used_selector_rows();
 
-            return is_satisfied(bp, assignments, used_gates, used_lookup_gates, used_copy_constraints, selector_rows);
+            // Gates are evaluated on the columns of the table itself, the proxy has none of its own.
+            return is_satisfied(bp.get(), assignments.get(), used_gates, used_lookup_gates, {}, selector_rows) &&
+                   is_satisfied(bp, assignments, {}, {}, used_copy_constraints, selector_rows);
         }
     }    // namespace blueprint
 }    // namespace nil
-- 
2.43.0


From 422b1f1804963ed7e91c79ab18c1ddc086e9d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:39 +0000
Subject: [PATCH 25/50] fix: stretched components copy the inputs they are
 given

---
 include/nil/blueprint/component_stretcher.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 7ab175f..86e7a9c 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -471,8 +471,10 @@ namespace nil {
                 circuit<crypto3::zk::snark::plonk_constraint_system<
                     BlueprintFieldType>> tmp_circuit;
 
+                auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
+                                                                                    tmp_assignment);
                 auto result = generate_circuit(
-                    component.component, tmp_circuit, tmp_assignment, instance_input, 0);
+                    component.component, tmp_circuit, tmp_assignment, converted_input, 0);
                 component.move_circuit(tmp_circuit, tmp_assignment, bp, assignment,
                                        instance_input, start_row_index);
                 return result_type_converter<ComponentType>::convert(component, result, instance_input,
-- 
2.43.0


From f49fdde25b509890054b49ce546ca92535ad7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:04 +0000
Subject: [PATCH 26/50] fix: count all rows a stretched component occupies

---
 include/nil/blueprint/component_stretcher.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 86e7a9c..12ed613 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -269,8 +269,10 @@ namespace nil {
                             }
                         }
                     }
-                    this->rows_amount = std::max_element(zones.zone_sizes.begin(), zones.zone_sizes.end(),
-                                                         [](auto a, auto b) { return a.second < b.second; })->second;
+                    this->rows_amount = *std::max_element(zone_rows.begin(), zone_rows.end());
+                    for (auto [old_row, new_row] : constant_remapping) {
+                        this->rows_amount = std::max(this->rows_amount, new_row + 1);
+                    }
                     this->remapping_computed = true;
                 }
 
-- 
2.43.0


From b2f3cbad8172c37526a6aa9222912989f02c9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:31 +0000
Subject: [PATCH 27/50] fix: keep constants of stretched components which are
 both copied and read by gates

---
 include/nil/blueprint/component_stretcher.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 12ed613..7980f98 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -225,7 +225,8 @@ namespace nil {
 
                     std::vector<std::size_t> zone_rows(zones.zone_sizes.size(), 0);
                     line_mapping.resize(this->component.rows_amount);
-                    std::vector<bool> constant_assigned(this->component.rows_amount, false);
+                    // Every row may hold a constant for a gate and one for copy constraints
+                    std::vector<bool> constant_assigned(2 * this->component.rows_amount + 1, false);
                     for (std::size_t i = 0; i < this->component.rows_amount; i++) {
                         auto zone = zone_mapping[zones.zones.find_set(i)];
                         line_mapping[i] = zone_rows[zone];
@@ -385,7 +386,8 @@ namespace nil {
                                 if (constant_remapping.find(i) != constant_remapping.end()) {
                                     assignment.constant(c, start_row_index + constant_remapping[i]) =
                                         tmp_assignment.constant(c, i);
-                                } else if (zones.constant_priority[i]) {
+                                }
+                                if (zones.constant_priority[i]) {
                                     assignment.constant(c, start_row_index + line_mapping[i]) =
                                         tmp_assignment.constant(c, i);
                                 }
-- 
2.43.0


From 89740af0fcdb65b837e014f76a71d57c3f71f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:01 +0000
Subject: [PATCH 28/50] fix: do not look up rows of stretched components for
 their inputs

---
 include/nil/blueprint/component_stretcher.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 7980f98..f039b95 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -406,6 +406,9 @@ namespace nil {
                                     old_var,
                                     start_row_index + constant_remapping[old_var.rotation],
                                     instance_input);
+                            } else if (old_var.type == var::column_type::public_input) {
+                                // Inputs are not among the rows of the component
+                                new_var = move_var(old_var, old_var.rotation, instance_input);
                             } else {
                                 new_var = move_var(
                                     old_var,
-- 
2.43.0


From b52755e307ec25f81fca65e81145e8e4f3e4412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:30 +0000
Subject: [PATCH 29/50] fix: keep rows of stretched components next to the
 constants their gates read

---
 include/nil/blueprint/component_stretcher.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index f039b95..2994e95 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -147,6 +147,7 @@ namespace nil {
                         // The proper way of dealing with constants requires changing the NP-hard problem being solved
                         // This is a hack
                         if (connection[3]) {
+                            zones.zones.union_set(row_idx - 1, row_idx);
                             zones.zones.union_set(row_idx - 1, zones.constant_zone_idx());
                             zones.constant_priority[row_idx - 1] = true;
                         }
@@ -155,6 +156,7 @@ namespace nil {
                             zones.constant_priority[row_idx] = true;
                         }
                         if (connection[5]) {
+                            zones.zones.union_set(row_idx, row_idx + 1);
                             zones.zones.union_set(row_idx + 1, zones.constant_zone_idx());
                             zones.constant_priority[row_idx + 1] = true;
                         }
-- 
2.43.0


From dec31d356227600fa2566e61fa95a0a0f84a3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:33 +0000
Subject: [PATCH 30/50] fix: move lookup gates of stretched components

---
 include/nil/blueprint/component_stretcher.hpp | 61 +++++++++++++------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 2994e95..5cf33b0 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -104,29 +104,40 @@ namespace nil {
                 using var = typename nil::crypto3::zk::snark::plonk_variable<typename BlueprintFieldType::value_type>;
 
                 std::map<std::size_t, std::array<bool, 6>> gate_range_map;
+                auto add_constraint_range = [&gate_range_map](
+                        std::size_t selector_index,
+                        const nil::crypto3::zk::snark::plonk_constraint<BlueprintFieldType> &constraint) {
+                    std::array<bool, 6> &island = gate_range_map[selector_index];
+                    std::set<var> variable_set;
+                    std::function<void(var)> variable_extractor = [&variable_set](var variable) {
+                        variable_set.insert(variable);
+                    };
+                    nil::crypto3::math::expression_for_each_variable_visitor<var> visitor(variable_extractor);
+                    visitor.visit(constraint);
+
+                    for (const auto &variable : variable_set) {
+                        BOOST_ASSERT(variable.rotation == -1 || variable.rotation == 0 || variable.rotation == 1);
+                        if (variable.type == var::column_type::constant) {
+                            island[variable.rotation + 4] = true;
+                        } else {
+                            island[variable.rotation + 1] = true;
+                        }
+                    }
+                };
                 for (const auto &gate : bp.gates()) {
-                    gate_range_map[gate.selector_index] = {false, false, false, false, false, false};
-                    std::array<bool, 6> &island = gate_range_map[gate.selector_index];
                     for (const auto &constraint : gate.constraints) {
-                        std::set<var> variable_set;
-                        std::function<void(var)> variable_extractor = [&variable_set](var variable) {
-                            variable_set.insert(variable);
-                        };
-                        nil::crypto3::math::expression_for_each_variable_visitor<var> visitor(variable_extractor);
-                        visitor.visit(constraint);
-
-                        for (const auto &variable : variable_set) {
-                            BOOST_ASSERT(variable.rotation == -1 || variable.rotation == 0 || variable.rotation == 1);
-                            if (variable.type == var::column_type::constant) {
-                                island[variable.rotation + 4] = true;
-                            } else {
-                                island[variable.rotation + 1] = true;
-                            }
+                        add_constraint_range(gate.selector_index, constraint);
+                    }
+                }
+                for (const auto &gate : bp.lookup_gates()) {
+                    for (const auto &lookup_constraint : gate.constraints) {
+                        for (const auto &constraint : lookup_constraint.lookup_input) {
+                            add_constraint_range(gate.tag_index, constraint);
                         }
                     }
                 }
 
-                zoning_info<BlueprintFieldType> zones(rows_amount, bp.num_gates());
+                zoning_info<BlueprintFieldType> zones(rows_amount, bp.num_gates() + bp.num_lookup_gates());
                 for (std::size_t i = start_row_index; i < start_row_index + rows_amount; i++) {
                     for (const auto &[selector, connection] : gate_range_map) {
                         if (i >= assignment.selector_column_size(selector) || assignment.selector(selector, i) == 0u) {
@@ -369,6 +380,22 @@ namespace nil {
                         }
                         gate_mapping[gate.selector_index] = bp.add_gate(new_constraints);
                     }
+                    for (const auto &gate : tmp_circuit.lookup_gates()) {
+                        std::vector<nil::crypto3::zk::snark::plonk_lookup_constraint<BlueprintFieldType>> new_constraints;
+                        gate_mover gate_displacer = gate_mover<BlueprintFieldType>(
+                            std::bind(&component_stretcher::move_gate_var,
+                                      this, std::placeholders::_1, gate.tag_index));
+                        for (auto lookup_constraint : gate.constraints) {
+                            const auto &table_name = tmp_circuit.get_reserved_indices_right().at(lookup_constraint.table_id);
+                            bp.reserve_table(table_name);
+                            lookup_constraint.table_id = bp.get_reserved_indices().at(table_name);
+                            for (auto &constraint : lookup_constraint.lookup_input) {
+                                constraint = gate_displacer.visit(constraint);
+                            }
+                            new_constraints.push_back(lookup_constraint);
+                        }
+                        gate_mapping[gate.tag_index] = bp.add_lookup_gate(new_constraints);
+                    }
                     // 2) Move selectors.
                     for (std::size_t i = 0; i < this->component.rows_amount; i++) {
                         for (std::size_t s = 0; s < tmp_assignment.selectors_amount(); s++) {
-- 
2.43.0


From ee780eba72620e80c56fd1d6d5530344e3d3c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:22 +0000
Subject: [PATCH 31/50] fix: take the second row of a zkEVM opcode apart from
 the first row after a single-row opcode

---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 5aec158..ce3cace 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -225,7 +225,8 @@ namespace nil {
                     return state.step_selection.variable();
                 }
                 if (row == opcode_height - 2) {
-                    return state.step_selection.variable(-1);
+                    // the previous row starts this opcode, unless it was the only row of the opcode before
+                    return state.step_selection.variable(-1) * (1 - state.step_selection.variable());
                 }
                 if (row == 0) {
                     return 1 - height_var * height_var_inv;
-- 
2.43.0


From 35f2694b5cf1ae692993f78a07779cb30568f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:21 +0000
Subject: [PATCH 32/50] fix: connect the zkEVM state selector with its input

---
 include/nil/blueprint/zkevm/state_selector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index 7a4462d..385be83 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -267,6 +267,7 @@ namespace nil {
 
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(selector_index, start_row_index, start_row_index);
+                generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From 47c389aeac722e2ff013bcb2cf97db9003311b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:23 +0000
Subject: [PATCH 33/50] fix: look up the row beside the bytecode table in the
 bytecode table tester

---
 include/nil/blueprint/zkevm/bytecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 2d09e68..e85e79b 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -763,7 +763,7 @@ namespace nil {
 
                 lookup_constraint_type constraint_aside = {lookup_tables_indices.at("zkevm_bytecode"), {tag, index, value, is_opcode, hash_hi, hash_lo}};
                 std::size_t selector_aside = bp.add_lookup_gate({constraint_aside});
-                assignment.enable_selector(selector_above, start_row_index+1, start_row_index+1);
+                assignment.enable_selector(selector_aside, start_row_index+1, start_row_index+1);
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From 6793379b530fc06977efff760c6f53b367ea45f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:20 +0000
Subject: [PATCH 34/50] fix: keep push data of the zkEVM bytecode table from
 going on beyond its end

---
 include/nil/blueprint/zkevm/bytecode.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index e85e79b..0626dc5 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -493,6 +493,11 @@ namespace nil {
                 std::vector<lookup_constraint_type> lookup_constraints;
                 lookup_constraint_type bytecode_range_check = {lookup_tables_indices.at("byte_range_table/full"), {tag * value}};
 
+                // PUSH_SIZE is never decreased below zero: push data ends where the push instruction says
+                lookup_constraint_type push_size_range_check = {
+                    lookup_tables_indices.at("byte_range_table/full"), {tag * push_size}
+                };
+
                 lookup_constraint_type opcode_constraint = {
                     lookup_tables_indices.at("zkevm_opcodes/full"),
                     {value * is_opcode, push_size * is_opcode , is_opcode}
@@ -504,6 +509,7 @@ namespace nil {
 //              }
 
                 lookup_constraints.push_back(bytecode_range_check);
+                lookup_constraints.push_back(push_size_range_check);
                 lookup_constraints.push_back(opcode_constraint);
 
                 std::size_t selector_id = bp.get_dynamic_table_definition("zkevm_bytecode")->lookup_table.tag_index;
-- 
2.43.0


From c70d27f237e7d7e10af924edb8766293a033780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:57 +0000
Subject: [PATCH 35/50] fix: give the result cell and the rows of constant
 powers for all exponents

The result was looked up in the column of the start value when the last
row was full.  The number of rows was too small for exponents which are
powers of four.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cdee480..d49920d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -45,7 +45,7 @@ namespace nil {
             std::size_t integral_type_log2(typename BlueprintFieldType::integral_type pow){
                 std::size_t result = 0;
                 typename BlueprintFieldType::integral_type a = 1;
-                while( a < pow ){
+                while( a <= pow ){
                     a *= 2;
                     result++;
                 }
@@ -155,7 +155,7 @@ namespace nil {
                     result_type(const flexible_constant_pow &component, std::size_t start_row_index) {
                         // TODO define output var
                         std::size_t witness_amount = component.witness_amount();
-                        std::size_t last_column_id = component.four_chunks.size()%(witness_amount - 2) + 1;
+                        std::size_t last_column_id = (component.four_chunks.size() - 1)%(witness_amount - 2) + 2;
                         y = var(component.W(last_column_id), start_row_index + component.rows_amount-1, false);
                     }
 
-- 
2.43.0


From c24deddd5a6924e59d362dbed47f1f3f75edf784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:56 +0000
Subject: [PATCH 36/50] fix: check the initial value of constant powers, count
 their gates by contents

The first cell of the chain of powers was unconstrained, so any multiple
of the power by a suitable power satisfied the circuit.  Declared gates
were counted by neighbouring differences of numbers.
---
 .../snark/plonk/flexible/constant_pow.hpp     | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index d49920d..e0c4ea7 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -27,6 +27,9 @@
 #ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_FLEXIBLE_constant_pow_HPP
 #define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_FLEXIBLE_constant_pow_HPP
 
+#include <set>
+#include <vector>
+
 #include <nil/crypto3/zk/snark/arithmetization/plonk/constraint_system.hpp>
 
 #include <nil/blueprint/blueprint/plonk/assignment.hpp>
@@ -94,19 +97,21 @@ namespace nil {
                         // related to pow
                         std::size_t one_row_cells = _witness_amount-2;
                         std::vector<std::size_t> four_chunks = integral_type_four_chunks<BlueprintFieldType>(_pow);
-                        std::vector<typename BlueprintFieldType::integral_type> larger_chunks;
+                        std::vector<std::vector<std::size_t>> larger_chunks;
                         std::size_t cur = 0;
                         for(std::size_t i = 0; i < four_chunks.size(); i++){
                             if ( i%one_row_cells == 0 ){
-                                larger_chunks.push_back(0);
+                                larger_chunks.push_back({});
                                 cur++;
                             }
-                            larger_chunks[cur-1] *= 4;
-                            larger_chunks[cur-1] += four_chunks[i];
+                            larger_chunks[cur-1].push_back(four_chunks[i]);
+                        }
+                        // The gate of the first row differs from all others: it checks the initial value too
+                        std::set<std::vector<std::size_t>> unique_chunks;
+                        for(std::size_t i = 1; i < larger_chunks.size(); i++){
+                            unique_chunks.insert(larger_chunks[i]);
                         }
-                        std::vector<typename BlueprintFieldType::integral_type> unique_chunks;
-                        std::unique_copy(larger_chunks.begin(), larger_chunks.end(), std::back_inserter(unique_chunks));
-                        return unique_chunks.size();
+                        return (larger_chunks.empty() ? 0 : 1) + unique_chunks.size();
                     }
                 };
 
@@ -260,6 +265,9 @@ namespace nil {
                 for( std::size_t row = 0; row < component.rows_amount; row++ ) {
                     std::vector<constraint_type> constraints;
                     var x_var = var(component.W(0),0,true);
+                    if (row == 0) {
+                        constraints.push_back(var(component.W(1), 0, true) - 1);
+                    }
 
                     for (std::size_t cell = 2; cell < witness_amount; cell++ ) {
                         if (cur < four_chunks.size()) {
-- 
2.43.0


From 849086efea2529388390d6b5ce883480633d1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:35 +0000
Subject: [PATCH 37/50] fix: enable the gates of the flexible Poseidon
 component, not the first ones of the circuit

---
 .../components/systems/snark/plonk/flexible/poseidon.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index ea05f3a..22b6339 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -328,7 +328,7 @@ namespace nil {
 
                 auto selector_indices = generate_gates(component, bp, assignment, instance_input);
                 for( std::size_t i = 0; i < selector_indices.size(); i++){
-                    assignment.enable_selector(i, start_row_index+i);
+                    assignment.enable_selector(selector_indices[i], start_row_index+i);
                 }
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
-- 
2.43.0


From e7534068476b145e2283bae661feef6dc474c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:11 +0000
Subject: [PATCH 38/50] fix: constrain every partial sum of the verifier's
 summation loop when the columns are a multiple of four

---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index 21e939d..acc78d1 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -230,7 +230,7 @@ namespace nil {
                         auto constraint_ =
                             var(component.W(j), 0) - var(component.W(j - 4), 0) -
                             (var(component.W(j - 2), 0) - var(component.W(j - 1), 0)) * var(component.W(j - 3), 0);
-                        selectors.push_back(bp.add_gate({constraint_2}));
+                        selectors.push_back(bp.add_gate({constraint_}));
                     }
                 } else if (witness_amount % 4 == 2) {
                     auto constraint_2 = var(component.W(1), 0) - var(component.W(witness_amount - 3), -1) -
-- 
2.43.0


From 54ed728ff722fda07b1a1c44cb991f9f1ddd3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:11 +0000
Subject: [PATCH 39/50] fix: summation loop of one row does not look at the row
 before it

---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index acc78d1..4a43401 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -353,6 +353,8 @@ namespace nil {
                     }
                     r = component.rows_amount - 1;
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 4 + 1)], row + r);
                     }
                 } else if (witness_amount % 4 == 2) {
@@ -368,6 +370,8 @@ namespace nil {
                     r = component.rows_amount - 1;
                     start_j = 3 - 2 * (r % 2);
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 2 + 1)], row + r);
                     }
                 } else {
@@ -391,6 +395,8 @@ namespace nil {
                         start_j = (3 - x) + (x - 2) * (r % 4 - 1);
                     }
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[j + 1], row + r);
                     }
                 }
-- 
2.43.0


From 3cf2a2b6971973a4a41494683b978c43812abb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:20 +0000
Subject: [PATCH 40/50] fix: columns required by components follow from their
 own parameters, not from those of the first call

---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 .../blueprint/components/algebra/fields/plonk/range_check.hpp   | 2 +-
 .../components/systems/snark/plonk/flexible/pow_factor.hpp      | 2 +-
 .../systems/snark/plonk/placeholder/fri_array_swap.hpp          | 2 +-
 .../components/systems/snark/plonk/placeholder/fri_cosets.hpp   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 2fa2b6a..207c634 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -170,7 +170,7 @@ namespace nil {
 
                 static manifest_type get_manifest(std::size_t bits_amount,
                                                   comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(
                                 3, std::max<std::size_t>(4, (bits_amount + chunk_size - 1) / chunk_size + 1))),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index e76cb96..ea96c99 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -190,7 +190,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount, comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(3, std::max<std::size_t>(4, (bits_amount + 28 - 1) / 28 + 1))),
                         false
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
index 6bf2e22..96cbc00 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
@@ -135,7 +135,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(2, std::max<std::size_t>(3, bits_amount / chunk_size + 2))),
                         true
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index a9e69d9..3a14ac9 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -112,7 +112,7 @@ namespace nil {
 
                 static manifest_type get_manifest(
                     std::size_t power) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(new manifest_range_param(10, 10 + power / 6 + 1, 8)),
                         true
                     );
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index adeaa84..b721e30 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -87,7 +87,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t half_array_size) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         // TODO: make the manifest depend on half_array_size
                         // this requires the manifest rework
                         std::shared_ptr<manifest_param>(new manifest_range_param(5, 5 + 4 * (half_array_size - 1) + 1, 4)),
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
index 85f13a5..7b8e01a 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
@@ -137,7 +137,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t n, value_type omega) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(9, n * 9 + 1, 9)
                         ),
-- 
2.43.0


From 53b403f74834f86f2af8a0d2f5a44406c8d83897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:52 +0000
Subject: [PATCH 41/50] fix: connect the point added in the variable base
 multiplication with the input point

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index 57fa7a4..55e8605 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -771,6 +771,8 @@ namespace nil {
 
                 bp.add_copy_constraint({{component.W(2), (std::int32_t)(j), false}, addition_res.X});
                 bp.add_copy_constraint({{component.W(3), (std::int32_t)(j), false}, addition_res.Y});
+                bp.add_copy_constraint({{component.W(0), (std::int32_t)(j), false}, instance_input.T.x});
+                bp.add_copy_constraint({{component.W(1), (std::int32_t)(j), false}, instance_input.T.y});
 
                 // main algorithm
 
-- 
2.43.0


From c5402b050d138525b7416fbb106751284ad0787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:52 +0000
Subject: [PATCH 42/50] fix: connect the last step of the range check of the
 variable base multiplication

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index 55e8605..c2a6f94 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -817,7 +817,7 @@ namespace nil {
                 }
                 bp.add_copy_constraint(
                         {{component.C(0), (std::int32_t)(j), false, var::column_type::constant}, {component.W(6), (std::int32_t)(j + 58), false}});
-                for (int z = 0; z < 40; z += 2) {
+                for (int z = 0; z <= 40; z += 2) {
                     bp.add_copy_constraint(
                         {{component.W(14), (std::int32_t)(j + 58 + z + 1), false}, {component.W(6), (std::int32_t)(j + 58 + z + 2), false}});
                 }
-- 
2.43.0


From 12b12c5bef5d62c168c82d014b87f00f3e7f767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:52 +0000
Subject: [PATCH 43/50] fix: variable base multiplication takes its zero from
 its constant column

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index c2a6f94..f395bcd 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -802,7 +802,7 @@ namespace nil {
                                         {component.W(1), (std::int32_t)(start_row_index + component.rows_amount - 3), false}});
 
                 bp.add_copy_constraint({{component.W(4), (std::int32_t)(j), false},
-                                        {component.W(0), (std::int32_t)(j), false, var::column_type::constant}});
+                                        {component.C(0), (std::int32_t)(j), false, var::column_type::constant}});
 
                 // bp.add_copy_constraint(
                 //     {instance_input.b, {component.W(5), (std::int32_t)(j + component.rows_amount - 4), false}});    // scalar value check
-- 
2.43.0


From 448cb34b3ce551b2f11aad6dd5f72b5e284d19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:26 +0000
Subject: [PATCH 44/50] fix: edwards and non-native field components fill in
 the columns they were given

---
 .../plonk/non_native/variable_base_multiplication.hpp      | 7 +------
 .../non_native/variable_base_multiplication_per_bit.hpp    | 4 +++-
 .../algebra/fields/plonk/non_native/addition.hpp           | 3 ++-
 .../algebra/fields/plonk/non_native/subtraction.hpp        | 3 ++-
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp
index 99d5913..af0b47a 100644
--- a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp
+++ b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp
@@ -146,13 +146,8 @@ namespace nil {
                     var_ec_point output;
 
                     result_type(const variable_base_multiplication &component, std::uint32_t start_row_index) {
-                        using mul_per_bit_component =
-                            components::variable_base_multiplication_per_bit<ArithmetizationType,
-                                CurveType, Ed25519Type, non_native_policy_type>;
-                        mul_per_bit_component component_instance({0, 1, 2, 3, 4, 5, 6, 7, 8}, {0}, {});
-
                         auto final_mul_per_bit_res = typename plonk_ed25519_mul_per_bit<BlueprintFieldType, CurveType>::result_type(
-                            component_instance, start_row_index + component.rows_amount - component.mul_per_bit_subcomponent.rows_amount);
+                            component.mul_per_bit_subcomponent, start_row_index + component.rows_amount - component.mul_per_bit_subcomponent.rows_amount);
 
 
                         output.x = {final_mul_per_bit_res.output.x[0],
diff --git a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp
index 7b49138..c1781cb 100644
--- a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp
+++ b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp
@@ -146,7 +146,9 @@ namespace nil {
                         using complete_addition_component =
                             components::complete_addition<ArithmetizationType, CurveType, Ed25519Type,
                                                           basic_non_native_policy<BlueprintFieldType>>;
-                        complete_addition_component component_instance({0, 1, 2, 3, 4, 5, 6, 7, 8}, {0}, {});
+                        complete_addition_component component_instance(
+                            {component.W(0), component.W(1), component.W(2), component.W(3), component.W(4),
+                                component.W(5), component.W(6), component.W(7), component.W(8)},{component.C(0)},{});
 
                         auto final_addition_res = typename plonk_ed25519_complete_addition<BlueprintFieldType, CurveType>::result_type(
                             component_instance, start_row_index + component.rows_amount - complete_addition_component::get_rows_amount(component.witness_amount()));
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
index 5ceeaf8..f82057d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
@@ -333,7 +333,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_addition<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index 78fa308..af1c88a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -337,7 +337,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_subtraction<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
-- 
2.43.0


From eca24215cc0cacafa24f562bc87197c10c09df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:31 +0000
Subject: [PATCH 45/50] fix: non-native subtraction accepts a negative
 difference of the lowest limbs

---
 .../algebra/fields/plonk/non_native/subtraction.hpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index af1c88a..ef5f4bc 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -304,7 +304,9 @@ namespace nil {
                     eddsa_p & extended_mask;
                 typename BlueprintFieldType::value_type t = a[0] + eddsa_p0 - b[0] + p[0] * q[0];
 
-                typename BlueprintFieldType::value_type u0 = t - r[0];
+                // a[0] + p[0] - b[0] can be negative
+                typename BlueprintFieldType::value_type u0 = 
+                    t - r[0] + typename BlueprintFieldType::value_type(pasta_base << 66);
 
                 typename BlueprintFieldType::integral_type u0_integral =
                     typename BlueprintFieldType::integral_type(u0.data) >> 66;
@@ -413,7 +415,7 @@ namespace nil {
                 auto t = var(component.W(0), 0) + p[0] * var(component.W(2), 0);
                 auto constraint_1 =
                     var(component.W(7), -1) * (base << 66) -
-                    (t + eddsa_p0 - var(component.W(1), 0) - var(component.W(0), +1));
+                    (t + eddsa_p0 - var(component.W(1), 0) - var(component.W(0), +1) + (base << 66));
                 auto constraint_2 = var(component.W(2), 0) * (var(component.W(2), 0) - 1);
                 auto constraint_3 =
                     var(component.W(7), -1) -
-- 
2.43.0


From 6c87bb4d739a86fa4f9421b64c317555677418ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:10 +0000
Subject: [PATCH 46/50] fix: doubling of Edwards points compares all limbs of
 the second coordinate

---
 .../algebra/curves/edwards/plonk/non_native/doubling.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp
index 90ffe1e..dfd6272 100644
--- a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp
+++ b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp
@@ -514,8 +514,8 @@ namespace nil {
 
                     for (std::size_t i = 0; i < 4; i++) {
                         bp.add_copy_constraint(
-                            {{component.W(3 + i), (std::int32_t)(t5_row + 2), false},
-                             {component.W(3 + i), (std::int32_t)(t10_row + 2), false}});
+                            {{component.W(i), (std::int32_t)(t5_row + 2), false},
+                             {component.W(i), (std::int32_t)(t10_row + 2), false}});
                     }
                 }
 
-- 
2.43.0


From 61cbe82630ee9de6989badf3e8655bf2542f1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:15 +0000
Subject: [PATCH 47/50] fix: SHA-512 takes its constants and words from the
 columns it was given

---
 .../components/hashes/sha2/plonk/sha512.hpp   | 24 +++++++++----------
 .../hashes/sha2/plonk/sha512_process.hpp      |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
index d318a1d..53e0aea 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
@@ -182,18 +182,18 @@ namespace nil {
 
                     for(std::size_t k = 0; k < 4; k++) {
                         for(std::size_t i = 0; i < 4; i++) {
-                            input_words_vars_1[4*k + i] = var(2*i, start_row_index + 1 + 3*k, false);
+                            input_words_vars_1[4*k + i] = var(component.W(2*i), start_row_index + 1 + 3*k, false);
                         }
                     }
 
-                    std::array<var, 8> constants_var = {var(0, start_row_index, false, var::column_type::constant),
-                                                        var(0, start_row_index + 1, false, var::column_type::constant),
-                                                        var(0, start_row_index + 2, false, var::column_type::constant),
-                                                        var(0, start_row_index + 3, false, var::column_type::constant),
-                                                        var(0, start_row_index + 4, false, var::column_type::constant),
-                                                        var(0, start_row_index + 5, false, var::column_type::constant),
-                                                        var(0, start_row_index + 6, false, var::column_type::constant),
-                                                        var(0, start_row_index + 7, false, var::column_type::constant)};
+                    std::array<var, 8> constants_var = {var(component.C(0), start_row_index, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 1, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 2, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 3, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 4, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 5, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 6, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 7, false, var::column_type::constant)};
                     sha512_process_component sha512_process_instance(
                                 {component.W(0), component.W(1), component.W(2), component.W(3), component.W(4),
                                     component.W(5), component.W(6), component.W(7), component.W(8)},{component.C(0)},{});
@@ -207,13 +207,13 @@ namespace nil {
                     std::array<var, 16> input_words_vars_2;
 
                     for(std::size_t i = 0; i < 4; i++) {
-                        input_words_vars_2[i] = var(2*i, start_row_index + 1 + 12, false);
+                        input_words_vars_2[i] = var(component.W(2*i), start_row_index + 1 + 12, false);
                     }
 
                     for (std::size_t i = 4; i < 15; i++) {
-                        input_words_vars_2[i] = var(0, start_row_index + 8, false, var::column_type::constant);
+                        input_words_vars_2[i] = var(component.C(0), start_row_index + 8, false, var::column_type::constant);
                     }
-                    input_words_vars_2[15] = var(0, start_row_index + 9, false, var::column_type::constant);
+                    input_words_vars_2[15] = var(component.C(0), start_row_index + 9, false, var::column_type::constant);
 
 
                     sha_params = {sha_output, input_words_vars_2};
diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
index 3f12426..5d03a46 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
@@ -390,7 +390,7 @@ namespace nil {
                     var(component.W(4), -1) * (one << (sigma_sizes[0] + sigma_sizes[1] + sigma_sizes[2] + sigma_sizes[3])) +
                     var(component.W(2), 0) + var(component.W(3), 0) * (1 << 16) +
                     var(component.W(4), 0) * (one << 32) + var(component.W(5), 0) * (one << 48) +
-                    var(component.W(0), 0, true, var::column_type::constant));
+                    var(component.C(0), 0, true, var::column_type::constant));
                     auto constraint_2 =
                         var(component.W(1), +1) + var(component.W(7), 0) - (var(component.W(2), +1) + m*var(component.W(3), +1));
                     auto constraint_3 =
-- 
2.43.0


From 25b1146ef526188ff4f16a4753e7eb1c6bcf3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:57 +0000
Subject: [PATCH 48/50] fix: reserve the lookup tables of a stretched component
 in its own circuit

---
 include/nil/blueprint/component_stretcher.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 5cf33b0..f44b4dc 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -212,6 +212,16 @@ namespace nil {
                 mutable std::size_t rows_amount;
                 mutable bool remapping_computed = false;
 
+                // The component is first generated in a circuit of its own, which has to know the tables too
+                void reserve_tables(
+                        circuit<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &tmp_circuit) const {
+                    if constexpr (use_lookups<ComponentType>()) {
+                        for (const auto &[name, dynamic] : this->component.component_lookup_tables()) {
+                            tmp_circuit.reserve_table(name);
+                        }
+                    }
+                }
+
                 void compute_remapping(
                         assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &assignment,
                         std::size_t old_witness_amount,
@@ -223,6 +233,7 @@ namespace nil {
                     );
                     auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
                                                                                         tmp_assignment);
+                    reserve_tables(tmp_circuit);
                     generate_circuit(this->component, tmp_circuit, tmp_assignment, converted_input, 0);
                     generate_assignments(this->component, tmp_assignment, converted_input, 0);
                     zones = generate_zones(tmp_circuit, tmp_assignment, 0, this->component.rows_amount);
@@ -509,6 +520,7 @@ namespace nil {
 
                 auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
                                                                                     tmp_assignment);
+                component.reserve_tables(tmp_circuit);
                 auto result = generate_circuit(
                     component.component, tmp_circuit, tmp_assignment, converted_input, 0);
                 component.move_circuit(tmp_circuit, tmp_assignment, bp, assignment,
@@ -540,6 +552,7 @@ namespace nil {
 
                 auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
                                                                                     tmp_assignment);
+                component.reserve_tables(tmp_circuit);
                 // We need to generate a circuit here, because the constants are generated in generate_circuit.
                 // The assignment might rely on the generated constants.
                 generate_circuit(
-- 
2.43.0


From ee60862afad281474b6ffa4b169dfeda91a94633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:57 +0000
Subject: [PATCH 49/50] fix: announce the constant column of bit conversions,
 comparisons and argument verifiers

---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 .../fields/plonk/non_native/detail/bit_builder_component.hpp    | 2 +-
 .../systems/snark/plonk/placeholder/gate_argument_verifier.hpp  | 2 +-
 .../snark/plonk/placeholder/lookup_argument_verifier.hpp        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 207c634..5af9772 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -174,7 +174,7 @@ namespace nil {
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(
                                 3, std::max<std::size_t>(4, (bits_amount + chunk_size - 1) / chunk_size + 1))),
-                        false
+                        true
                     );
                     return manifest;
                 }
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index ea96c99..58afa47 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -193,7 +193,7 @@ namespace nil {
                     manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(3, std::max<std::size_t>(4, (bits_amount + 28 - 1) / 28 + 1))),
-                        false
+                        true
                     );
                     return manifest;
                 }
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
index 71ca02a..751412d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
@@ -196,7 +196,7 @@ namespace nil {
                         manifest_type manifest = manifest_type(
                             std::shared_ptr<manifest_param>(new manifest_range_param(
                                 3, std::max<std::size_t>(4, bits_amount / 3 + 2))),
-                            false
+                            true
                         );
                         return manifest;
                     }
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp
index 77d2f16..a87143e 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp
@@ -131,7 +131,7 @@ namespace nil {
 
                 static manifest_type get_manifest(std::vector<std::size_t> &gate_sizes_) {
                     static manifest_type manifest =
-                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(3, 15)), false)
+                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(3, 15)), true)
                             .merge_with(gate_component::get_manifest(0)); // independent of degree
                     return manifest;
                 }
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp
index 39c06d8..3b94286 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp
@@ -165,7 +165,7 @@ namespace nil {
                     std::vector<std::size_t> &lookup_table_columns_numbers
                 ) {
                     static manifest_type manifest =
-                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(4, 15)), false)
+                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(4, 15)), true)
                             .merge_with(mul::get_manifest())
                             // does not depend on actual value, so we cheat here
                             .merge_with(f1_loop::get_manifest(1))
-- 
2.43.0


From 90aae99c7dd0988d8f503addafd95127c0ceb153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:27:23 +0000
Subject: [PATCH 50/50] fix: read constants from the constant column a
 component was given

---
 .../algebra/fields/plonk/bit_shift_constant.hpp    |  4 ++--
 .../fields/plonk/multiplication_by_constant.hpp    |  2 +-
 .../fields/plonk/non_native/bit_composition.hpp    |  2 +-
 .../fields/plonk/non_native/bit_decomposition.hpp  |  2 +-
 .../fields/plonk/non_native/comparison_checked.hpp |  2 +-
 .../fields/plonk/non_native/comparison_flag.hpp    |  2 +-
 .../algebra/fields/plonk/range_check.hpp           |  2 +-
 .../components/algebra/fields/plonk/sqrt.hpp       | 14 +++++++-------
 .../systems/snark/plonk/placeholder/fri_cosets.hpp | 10 +++++-----
 9 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp b/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
index abc02e1..19b2058 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
@@ -245,7 +245,7 @@ namespace nil {
                 typename composition_component_type::input_type composition_input;
                 composition_input.bits.resize(component.composition_subcomponent.bits_amount);
                 if (component.mode == bit_shift_mode::LEFT) {
-                    var zero(0, start_row_index, false, var::column_type::constant);
+                    var zero(component.C(0), start_row_index, false, var::column_type::constant);
                     std::fill(composition_input.bits.begin(), composition_input.bits.end(), zero);
 
                     std::move(decomposition.output.begin() + component.shift, decomposition.output.end(),
@@ -291,7 +291,7 @@ namespace nil {
                 composition_input.bits.resize(component.composition_subcomponent.bits_amount);
                 if (component.mode == bit_shift_mode::LEFT) {
                     // We do not need to set this constant, as it is set by the decomposition component
-                    var zero(0, start_row_index, false, var::column_type::constant);
+                    var zero(component.C(0), start_row_index, false, var::column_type::constant);
                     std::fill(composition_input.bits.begin(), composition_input.bits.end(), zero);
 
                     std::move(decomposition.output.begin() + component.shift, decomposition.output.end(),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp b/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
index 1d1855c..395cf25 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
@@ -182,7 +182,7 @@ namespace nil {
                 using var = typename plonk_mul_by_constant<BlueprintFieldType>::var;
 
                 auto constraint_1 =
-                    var(component.W(0), 0) * var(0, 0, true, var::column_type::constant) - var(component.W(1), 0);
+                    var(component.W(0), 0) * var(component.C(0), 0, true, var::column_type::constant) - var(component.W(1), 0);
 
                 return bp.add_gate(constraint_1);
             }
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp
index 7e047f6..dbcd02f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp
@@ -271,7 +271,7 @@ namespace nil {
                     return component.mode == bit_composition_mode::MSB ? i : component.bits_amount - i - 1;
                 };
 
-                var zero(0, row, false, var::column_type::constant);
+                var zero(component.C(0), row, false, var::column_type::constant);
                 std::size_t padding = 0;
                 for (; padding < component.padding_bits_amount(); padding++) {
                     auto bit_pos = component.bit_position(row, padding);
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
index 544ad56..1e038e0 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
@@ -277,7 +277,7 @@ namespace nil {
 
                 std::size_t row = start_row_index;
 
-                var zero(0, row, false, var::column_type::constant);
+                var zero(component.C(0), row, false, var::column_type::constant);
                 std::size_t padding = 0;
                 for (; padding < component.padding_bits_amount(); padding++) {
                     auto bit_pos = component.bit_position(row, padding);
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 5af9772..b5e24da 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -382,7 +382,7 @@ namespace nil {
 
                 using var = typename plonk_comparison_checked<BlueprintFieldType>::var;
                 std::uint32_t row = start_row_index;
-                var zero(0, start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index, false, var::column_type::constant);
 
                 bp.add_copy_constraint({zero, var(component.W(0), start_row_index, false)});
                 bp.add_copy_constraint({zero, var(component.W(1), start_row_index, false)});
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 58afa47..ec8c814 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -803,7 +803,7 @@ namespace nil {
                     using var = typename plonk_comparison_flag<BlueprintFieldType>::var;
 
                     std::size_t row = start_row_index;
-                    var zero(0, start_row_index, false, var::column_type::constant);
+                    var zero(component.C(0), start_row_index, false, var::column_type::constant);
                     for (std::size_t i = 0; i < 3; i++) {
                         bp.add_copy_constraint({zero, var(component.W(i), row, false)});
                     }
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
index 96cbc00..2db0e0f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
@@ -377,7 +377,7 @@ namespace nil {
 
                 using var = typename plonk_range_check<BlueprintFieldType>::var;
 
-                var zero(0, start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index, false, var::column_type::constant);
                 bp.add_copy_constraint({zero, var(component.W(0), start_row_index, false)});
 
                 for (std::size_t i = 1; i <= component.padding_size; i++) {
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
index f74a820..cd2565a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
@@ -199,9 +199,9 @@ namespace nil {
                 using sub_component = typename component_type::sub_component;
                 std::size_t row = start_row_index;
 
-                var exp(0, start_row_index, false, var::column_type::constant);
-                var zero(0, start_row_index + 1, false, var::column_type::constant);
-                var one(0, start_row_index + 2, false, var::column_type::constant);
+                var exp(component.C(0), start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index + 1, false, var::column_type::constant);
+                var one(component.C(0), start_row_index + 2, false, var::column_type::constant);
 
                 row += 3; // leave empty cells for exp_component's constants
 
@@ -289,9 +289,9 @@ namespace nil {
                 using sub_component = typename component_type::sub_component;
                 std::size_t row = start_row_index;
 
-                var exp(0, start_row_index, false, var::column_type::constant);
-                var zero(0, start_row_index + 1, false, var::column_type::constant);
-                var one(0, start_row_index + 2, false, var::column_type::constant);
+                var exp(component.C(0), start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index + 1, false, var::column_type::constant);
+                var one(component.C(0), start_row_index + 2, false, var::column_type::constant);
 
                 row += 3; // leave empty cells for exp_component's constants
 
@@ -377,7 +377,7 @@ namespace nil {
 
                 using var = typename plonk_sqrt<BlueprintFieldType>::var;
 
-                var zero(0, start_row_index + 1, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index + 1, false, var::column_type::constant);
                 var last_check(component.W(2), start_row_index + component.rows_amount - 1,
                                false, var::column_type::witness);
                 bp.add_copy_constraint({zero, last_check});
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
index 7b8e01a..95e11b6 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
@@ -322,7 +322,7 @@ namespace nil {
                 bp.add_copy_constraint({instance_input.x, var(component.W(0), start_row_index, false)});
 
                 // omega
-                bp.add_copy_constraint({var(0, start_row_index, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index, false, var::column_type::constant),
                                         var(component.W(3), start_row_index, false)});
 
                 // everything that's over total_bits should be zero
@@ -333,17 +333,17 @@ namespace nil {
 
                 if (remaining_bits % (WA/3 - 1) > 0) { // Are there extra bits in the last row?
                     for(std::size_t j = 3*(remaining_bits % (WA/3 - 1) + 1); j < WA; j++) {
-                        bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                        bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                                 var(component.W(j), start_row_index + component.rows_amount - 2, false)});
                     }
                 }
 
                 // final row first 3-block is all zeros
-                bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                         var(component.W(0), start_row_index + component.rows_amount - 1, false)});
-                bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                         var(component.W(1), start_row_index + component.rows_amount - 1, false)});
-                bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                         var(component.W(2), start_row_index + component.rows_amount - 1, false)});
             }
 
-- 
2.43.0

