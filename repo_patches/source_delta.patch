From 5d42cedf95f5d6002ccd3b015bb0f9246b109389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 01/42] fix: NoisyRelation::update_value pairs the base value
 with the new noisy value

---
 cxx/noisy_relation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 408a5eb..55ba3cb 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -172,7 +172,7 @@ class NoisyRelation : public Relation<T> {
     assert(data.contains(items));
     data.at(items) = value;
     const ValueType& base_value = get_base_value(items);
-    emission_relation.update_value(items, std::make_pair(value, base_value));
+    emission_relation.update_value(items, std::make_pair(base_value, value));
   }
 
   const std::vector<Domain*>& get_domains() const { return domains; }
-- 
2.43.0


From da05400385b6b312c8ea7b9fc4426c7f87b4991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 02/42] fix: latent value transitions remove from a cluster
 what they put in it

CleanRelation::incorporate_to_cluster added a value to the cluster but left the
relation's record of it alone, so that the unincorporate_from_cluster that
follows for every candidate value removed the old value instead.
---
 cxx/clean_relation.hh          | 2 ++
 cxx/noisy_relation.hh          | 1 +
 cxx/transition_latent_value.hh | 3 ---
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index 0131c6f..d5ec259 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -165,6 +165,8 @@ class CleanRelation : public Relation<T> {
     T_items z = get_cluster_assignment(items);
     assert(clusters.contains(z));
     clusters.at(z)->incorporate(value);
+    // A later unincorporate_from_cluster must remove what was incorporated.
+    data[items] = value;
   }
 
   void unincorporate_from_cluster(const T_items& items) {
diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 55ba3cb..0210bce 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -91,6 +91,7 @@ class NoisyRelation : public Relation<T> {
     const ValueType& base_val = get_base_value(items);
     emission_relation.incorporate_to_cluster(items,
                                              std::make_pair(base_val, value));
+    data[items] = value;
   }
 
   void cleanup_base_to_noisy(const T_items& items) {
diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 7e7338e..a3446e2 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -159,9 +159,6 @@ void choose_and_incorporate_value(
 
   // Incorporate the new estimate of the latent value.
   base_relation->incorporate_to_cluster(base_items, new_latent_value);
-  // Base relation needs to be updated manually since incorporate_to_cluster
-  // operates only on the underlying clusters.
-  base_relation->update_value(base_items, new_latent_value);
   for (auto& [name, rel] : noisy_relations) {
     for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
       rel->incorporate_to_cluster(items, noisy_observations.at(name).at(items));
-- 
2.43.0


From 50fba2aa0378c6927f35808adb3f6ff8d9dc6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 03/42] fix: SimpleStringEmission draws characters from its own
 alphabet

uniform_int_distribution includes its upper bound, so DEL (0x7f) came out too.
---
 cxx/emissions/simple_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 26f9554..db75cd0 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -129,7 +129,7 @@ class SimpleStringEmission : public Emission<std::string> {
   }
 
   char random_character(std::mt19937* prng) {
-    std::uniform_int_distribution<char> uid(lowest_char, highest_char + 1);
+    std::uniform_int_distribution<char> uid(lowest_char, highest_char);
     return uid(*prng);
   }
 
-- 
2.43.0


From d7976091e75f4ba4557726389b51686baeb99ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 04/42] fix: exact Gibbs weights when a domain occurs twice in
 a relation

logp_gibbs_exact scored an item's observations cluster by cluster as they are
now, sending each group to where its first observation would go, and left the
other observations of the item in the clusters it compared.  With a relation
over D x D the observations of one cluster go to different ones, and enter
clusters that hold the item's own observations.  The observations are now all
taken out first and grouped by the cluster they would go to.  The exact
floating-point comparisons went with the code they were in: they do not hold
for Normal, whose statistics are not restored to the last bit.
---
 cxx/clean_relation.hh | 78 ++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index d5ec259..0dd3a3c 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -316,53 +316,24 @@ class CleanRelation : public Relation<T> {
     return m;
   }
 
-  double logp_gibbs_exact_current(const std::vector<T_items>& items_list) {
-    assert(!items_list.empty());
-    T_items z = get_cluster_assignment(items_list[0]);
-    auto cluster = clusters.at(z);
-    double logp0 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      // assert(z == get_cluster_assignment(items));
-      cluster->unincorporate(x);
-    }
-    double logp1 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
-    }
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
-    return logp0 - logp1;
-  }
-
-  double logp_gibbs_exact_variant(const Domain& domain, const T_item& item,
-                                  int table,
+  // The change in the score of the cluster at `z` (or of a new one, if there is
+  // none) when the observations of `items_list` are added to it.
+  double logp_gibbs_exact_cluster(const T_items& z,
                                   const std::vector<T_items>& items_list,
                                   std::mt19937* prng) {
     assert(!items_list.empty());
-    T_items z =
-        get_cluster_assignment_gibbs(items_list[0], domain, item, table);
-
-    Distribution<ValueType>* prior = make_new_distribution(prng);
+    Distribution<ValueType>* prior =
+        clusters.contains(z) ? nullptr : make_new_distribution(prng);
     Distribution<ValueType>* cluster =
-        clusters.contains(z) ? clusters.at(z) : prior;
+        prior == nullptr ? clusters.at(z) : prior;
     double logp0 = cluster->logp_score();
     for (const T_items& items : items_list) {
-      // assert(z == get_cluster_assignment_gibbs(items, domain, item, table));
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
+      cluster->incorporate(data.at(items));
     }
     const double logp1 = cluster->logp_score();
     for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->unincorporate(x);
+      cluster->unincorporate(data.at(items));
     }
-
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
     delete prior;
     return logp1 - logp0;
   }
@@ -370,22 +341,39 @@ class CleanRelation : public Relation<T> {
   std::vector<double> logp_gibbs_exact(const Domain& domain, const T_item& item,
                                        std::vector<int> tables,
                                        std::mt19937* prng) {
+    // Take the observations of `item` out of their clusters.  They must not
+    // count as evidence for themselves, which they would in a relation that
+    // has `domain` more than once, where the clusters they leave and the
+    // clusters they enter may be the same.
     auto cluster_to_items_list = get_cluster_to_items_list(domain, item);
-    int table_current = domain.get_cluster_assignment(item);
+    for (const auto& [z, items_list] : cluster_to_items_list) {
+      for (const T_items& items : items_list) {
+        clusters.at(z)->unincorporate(data.at(items));
+      }
+    }
     std::vector<double> logps;
     logps.reserve(tables.size());
-    double lp_cluster;
     for (const int& table : tables) {
-      double lp_table = 0;
+      std::unordered_map<std::vector<int>, std::vector<T_items>, VectorIntHash>
+          target_to_items_list;
       for (const auto& [z, items_list] : cluster_to_items_list) {
-        lp_cluster = (table == table_current)
-                         ? logp_gibbs_exact_current(items_list)
-                         : logp_gibbs_exact_variant(domain, item, table,
-                                                    items_list, prng);
-        lp_table += lp_cluster;
+        for (const T_items& items : items_list) {
+          target_to_items_list[get_cluster_assignment_gibbs(items, domain, item,
+                                                            table)]
+              .push_back(items);
+        }
+      }
+      double lp_table = 0;
+      for (const auto& [z, items_list] : target_to_items_list) {
+        lp_table += logp_gibbs_exact_cluster(z, items_list, prng);
       }
       logps.push_back(lp_table);
     }
+    for (const auto& [z, items_list] : cluster_to_items_list) {
+      for (const T_items& items : items_list) {
+        clusters.at(z)->incorporate(data.at(items));
+      }
+    }
     return logps;
   }
 
-- 
2.43.0


From 02ba9efd53d0d864024a263a6326b4f698a0b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 05/42] fix: removing a noisy relation forgets it as a
 dependant of its base

Otherwise transition_latent_values_relation and update_base_relation, which
follow base_to_noisy_relations, look up a relation that no longer exists, and
adding it again lists it twice.
---
 cxx/hirm.cc | 9 +++++++++
 cxx/irm.cc  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 71c1da7..db2ff57 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -272,6 +272,15 @@ void HIRM::add_relation(std::mt19937* prng, const std::string& name,
 // have the removed relation as a base. The NoisyRelations will be in an invalid
 // state after their base relation is removed.
 void HIRM::remove_relation(const std::string& name) {
+  if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    if (it != base_to_noisy_relations.end()) {
+      std::erase(it->second, name);
+      if (it->second.empty()) {
+        base_to_noisy_relations.erase(it);
+      }
+    }
+  }
   schema.erase(name);
   int rc = relation_to_code.at(name);
   int table = crp.assignments.at(rc);
diff --git a/cxx/irm.cc b/cxx/irm.cc
index 56401d0..28b06c9 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -379,6 +379,15 @@ void IRM::add_relation_with_base(const std::string& name,
 }
 
 void IRM::remove_relation(const std::string& name) {
+  if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    if (it != base_to_noisy_relations.end()) {
+      std::erase(it->second, name);
+      if (it->second.empty()) {
+        base_to_noisy_relations.erase(it);
+      }
+    }
+  }
   std::unordered_set<std::string> ds;
   auto rel_domains =
       std::visit([](auto r) { return r->get_domains(); }, relations.at(name));
-- 
2.43.0


From 80a25bda9a67ddb4d69d037fff2ab946d4f5844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 06/42] fix: removing a relation unseats the entities only it
 had observed

They stayed in the domain's CRP, so that every candidate view of every relation
move (chosen or not) kept entities without observations, and the score of the
model changed although the relation stayed where it was.
---
 cxx/irm.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 28b06c9..071fe7c 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -396,12 +396,21 @@ void IRM::remove_relation(const std::string& name) {
   }
   for (const auto& d : ds) {
     domain_to_relations.at(d).erase(name);
-    // TODO: Remove r from domains.at(d)->items
     if (domain_to_relations.at(d).empty()) {
       domain_to_relations.erase(d);
       delete domains.at(d);
       domains.erase(d);
+      continue;
     }
+    // The items that only this relation had observations of leave the domain.
+    auto unincorporate_items = [&](auto rel) {
+      for (const auto& [item, unused_observations] : rel->get_data_r().at(d)) {
+        if (!has_observation(d, item)) {
+          domains.at(d)->unincorporate(item);
+        }
+      }
+    };
+    std::visit(unincorporate_items, relations.at(name));
   }
   std::visit([](auto r) { delete r; }, relations.at(name));
   relations.erase(name);
-- 
2.43.0


From eff36ac7b44165b5ac7dd800a2ea059782db13c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 07/42] fix: BetaBernoulli keeps fractional weights of
 successes

---
 cxx/distributions/beta_bernoulli.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/beta_bernoulli.hh b/cxx/distributions/beta_bernoulli.hh
index 1dfe007..bf340db 100644
--- a/cxx/distributions/beta_bernoulli.hh
+++ b/cxx/distributions/beta_bernoulli.hh
@@ -11,7 +11,7 @@ class BetaBernoulli : public Distribution<bool> {
  public:
   double alpha = 1;  // hyperparameter
   double beta = 1;   // hyperparameter
-  int s = 0;         // sum of observed values
+  double s = 0;      // (weighted) sum of observed values
 
   std::vector<double> alpha_grid;
   std::vector<double> beta_grid;
-- 
2.43.0


From e27b9164749363eab2a6c1d0c9d9213a7955d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 08/42] fix: DirichletCategorical samples with its fractional
 counts

---
 cxx/distributions/dirichlet_categorical.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 7cb683b..8fb61e3 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -35,7 +35,7 @@ double DirichletCategorical::logp_score() const {
 int DirichletCategorical::sample(std::mt19937* prng) {
   std::vector<double> weights(counts.size());
   std::transform(counts.begin(), counts.end(), weights.begin(),
-                 [&](size_t y) -> double { return y + alpha; });
+                 [&](double y) -> double { return y + alpha; });
   return choice(weights, prng);
 }
 
-- 
2.43.0


From 6b487ea79cbc504f8e02889b9bb7a8b70ea2ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 09/42] fix: Sometimes unincorporates what it incorporated when
 dirty equals clean

---
 cxx/emissions/sometimes.hh | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/sometimes.hh b/cxx/emissions/sometimes.hh
index 5e6603b..c2cad9a 100644
--- a/cxx/emissions/sometimes.hh
+++ b/cxx/emissions/sometimes.hh
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <unordered_map>
+#include <vector>
 
 #include "distributions/beta_bernoulli.hh"
 #include "emissions/base.hh"
@@ -13,6 +14,9 @@ class Sometimes : public Emission<SampleType> {
   BetaBernoulli bb;
   Emission<SampleType>* be;  // We own be.
   bool dirty_can_equal_clean;
+  // When dirty_can_equal_clean, how much of each incorporated (x, x) was
+  // attributed to be.
+  std::unordered_map<SampleType, std::vector<double>> attributions;
 
   // By default, Sometimes only works with BaseEmissors that assign zero
   // probability to dirty == clean.  Pass _dirty_can_equal_clean=true to
@@ -38,7 +42,16 @@ class Sometimes : public Emission<SampleType> {
     }
 
     if (dirty_can_equal_clean) {
-      double p_came_from_be = exp(bb.logp(true) + be->logp(x));
+      double p_came_from_be;
+      std::vector<double>& attributed = attributions[x.first];
+      if (weight < 0 && !attributed.empty()) {
+        // Take back exactly what the incorporate being undone attributed.
+        p_came_from_be = attributed.back();
+        attributed.pop_back();
+      } else {
+        p_came_from_be = exp(bb.logp(true) + be->logp(x));
+        attributed.push_back(p_came_from_be);
+      }
       bb.incorporate(true, p_came_from_be * weight);
       be->incorporate(x, p_came_from_be * weight);
       bb.incorporate(false, (1.0 - p_came_from_be) * weight);
-- 
2.43.0


From dd592c665173c60d4eec01741c515efaf42727e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 10/42] fix: BigramStringEmission weighs alignments by their
 probability, not its inverse

---
 cxx/emissions/bigram_string.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 85d92df..da05b9d 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -128,9 +128,15 @@ void BigramStringEmission::incorporate(
                   },
                   &alignments);
 
+  double min_cost = alignments.front().cost;
+  for (const auto& a : alignments) {
+    min_cost = std::min(min_cost, a.cost);
+  }
   double total_prob = 0.0;
   for (auto& a : alignments) {
-    a.cost = exp(a.cost);  // Turn all costs into non-log probabilities
+    // Turn all costs (negative log probabilities) into probabilities, up to a
+    // common factor.
+    a.cost = exp(min_cost - a.cost);
     total_prob += a.cost;
   }
 
-- 
2.43.0


From 8d9af1ad751b95380b052435e7d3d34b7279361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 11/42] fix: BigramStringEmission ranks alignments with the
 context it learns with

---
 cxx/emissions/bigram_string.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index da05b9d..ffcc8eb 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -57,16 +57,19 @@ std::string BigramStringEmission::category_to_char(int category) {
 
 double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, double old_cost) {
   assert(!alignment.align_pieces.empty());
+  // The context of the last piece is the last character of the first string
+  // that was consumed before it.
   std::string insertion_context = "";
-  for (auto it = alignment.align_pieces.rbegin();
+  for (auto it = alignment.align_pieces.rbegin() + 1;
        it != alignment.align_pieces.rend();
        ++it) {
+    if (it->index() == 1) {  // Insertion
+      continue;
+    }
     switch (it->index()) {
       case 0: // Deletion
         insertion_context = std::get<Deletion>(*it).deleted_char;
         break;
-      case 1: // Insertion
-        continue;
       case 2: // Substitution
         insertion_context = std::get<Substitution>(*it).original;
         break;
@@ -74,6 +77,7 @@ double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, do
         insertion_context = std::get<Match>(*it).c;
         break;
     }
+    break;
   }
   size_t icontext = get_index(insertion_context);
   const AlignPiece& p = alignment.align_pieces.back();
-- 
2.43.0


From b5869b27e7e06b4c70193371c55d4e3a226cc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 12/42] fix: an empty BigramStringEmission scores zero

---
 cxx/emissions/bigram_string.cc | 13 ++++++++++---
 cxx/emissions/bigram_string.hh |  6 ++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index ffcc8eb..94d14f7 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -28,7 +28,7 @@ BigramStringEmission::BigramStringEmission() {
   // substitutions models, because by default they insert too much (i.e.,
   // no evidence of insertions being rare) and treat substitutions as just
   // as likely as matches.
-  double initial_bias = (double) num_contexts * num_contexts;
+  initial_bias = (double) num_contexts * num_contexts;
   for (int i = 0; i < num_contexts; ++i) {
     insertions[i].incorporate(0, initial_bias);
     substitutions[i].incorporate(i, initial_bias);
@@ -205,14 +205,21 @@ double BigramStringEmission::logp(
 double BigramStringEmission::logp_score() const {
   double lp = 0.0;
   for (const auto &i : insertions) {
-    lp += i.logp_score();
+    lp += i.logp_score() - initial_bias_logp_score(i);
   }
   for (const auto &s : substitutions) {
-    lp += s.logp_score();
+    lp += s.logp_score() - initial_bias_logp_score(s);
   }
   return lp;
 }
 
+double BigramStringEmission::initial_bias_logp_score(
+    const DirichletCategorical& d) const {
+  double a = d.alpha * d.counts.size();
+  return lgamma(a) - lgamma(a + initial_bias) + lgamma(d.alpha + initial_bias) -
+         lgamma(d.alpha);
+}
+
 void BigramStringEmission::transition_hyperparameters(std::mt19937* prng) {
   for (auto &i : insertions) {
     i.transition_hyperparameters(prng);
diff --git a/cxx/emissions/bigram_string.hh b/cxx/emissions/bigram_string.hh
index 733649a..db4cd14 100644
--- a/cxx/emissions/bigram_string.hh
+++ b/cxx/emissions/bigram_string.hh
@@ -19,6 +19,8 @@ class BigramStringEmission : public Emission<std::string> {
   std::vector<DirichletCategorical> insertions;
   // substitutions.sample() == 0 means deletion.
   std::vector<DirichletCategorical> substitutions;
+  // The pseudo-count that each of them starts with, for one category.
+  double initial_bias;
 
   BigramStringEmission();
 
@@ -50,6 +52,10 @@ class BigramStringEmission : public Emission<std::string> {
       const std::vector<double>& weights);
 
  private:
+  // The part of d.logp_score() that is due to the initial bias rather than to
+  // what has been incorporated.
+  double initial_bias_logp_score(const DirichletCategorical& d) const;
+
   // This copy constructor is actually factually private, because it is only
   // intended to be used in the logp(x) method.
   BigramStringEmission(const BigramStringEmission& bse) = default;
-- 
2.43.0


From 3815481d2492e052e59674023bb39cc3c02b6e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 13/42] fix: the first table of a CRP has weight alpha, as
 every new table has

---
 cxx/distributions/crp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/crp.cc b/cxx/distributions/crp.cc
index 200c423..97a32a9 100644
--- a/cxx/distributions/crp.cc
+++ b/cxx/distributions/crp.cc
@@ -79,7 +79,7 @@ int CRP::max_table() const {
 std::map<int, double> CRP::tables_weights() const {
   std::map<int, double> dist;
   if (N == 0) {
-    dist[0] = 1;
+    dist[0] = alpha;
     return dist;
   }
   for (const auto& [table, customers] : tables) {
-- 
2.43.0


From deac3765328f30b1f5489c61d72872adbd4d1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 14/42] fix: a latent value without noisy observations stays as
 it is

---
 cxx/transition_latent_value.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index a3446e2..c0ae73f 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -30,6 +30,18 @@ void transition_latent_value(
     std::mt19937* prng, T_items base_items, Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
+  // Without noisy observations there is nothing to infer the value from.
+  bool has_noisy_observations = false;
+  for (const auto& [name, rel] : noisy_relations) {
+    auto it = rel->base_to_noisy_items.find(base_items);
+    if (it != rel->base_to_noisy_items.end() && !it->second.empty()) {
+      has_noisy_observations = true;
+    }
+  }
+  if (!has_noisy_observations) {
+    return;
+  }
+
   // We incorporate to/unincorporate from clusters themselves rather than
   // relations. Empty clusters are not deleted, because observations will be
   // re-incorporated to them.
-- 
2.43.0


From f35c837a8bed2fc6f55513fa8baa451e19915bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 15/42] fix: observations of a base relation are incorporated
 once

---
 cxx/util_io.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1bfa190..04bea79 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -350,9 +350,14 @@ void incorporate_observations_relation(
           },
           rel_var);
     }
-    incorporate_observations_relation(prng, base_name, h_irm, observations,
-                                      noisy_to_base, relation_items,
-                                      completed_relations);
+    // An observed base relation may have been incorporated already. (A latent
+    // one may have got more items to sample.)
+    if (!observations.contains(base_name) ||
+        !completed_relations.contains(base_name)) {
+      incorporate_observations_relation(prng, base_name, h_irm, observations,
+                                        noisy_to_base, relation_items,
+                                        completed_relations);
+    }
   }
 
   ObservationVariant ov;
-- 
2.43.0


From 39d9cae68664241acbf00f38eb55161abfc55299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 16/42] fix: an IRM or a saved model may name a noisy relation
 before its base

---
 cxx/irm.cc     | 26 ++++++++++++++++++++++++--
 cxx/irm.hh     |  4 ++++
 cxx/util_io.cc |  9 +++++----
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 071fe7c..be85e09 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -29,10 +29,32 @@ RelationVariant clean_relation_from_spec(const std::string& name,
   }
 }
 
+std::vector<std::string> base_first_order(const T_schema& schema) {
+  std::vector<std::string> order;
+  std::set<std::string> added;
+  while (order.size() < schema.size()) {
+    size_t num_added = added.size();
+    for (const auto& [name, relation] : schema) {
+      const T_noisy_relation* noisy = std::get_if<T_noisy_relation>(&relation);
+      if (!added.contains(name) &&
+          (noisy == nullptr || added.contains(noisy->base_relation))) {
+        order.push_back(name);
+        added.insert(name);
+      }
+    }
+    if (added.size() == num_added) {
+      printf("Detected loop or missing base relation in schema\n");
+      std::exit(1);
+    }
+  }
+  return order;
+}
+
 IRM::IRM(const T_schema& init_schema) {
   assert(schema.empty());
-  for (const auto& [name, relation] : init_schema) {
-    std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+  for (const std::string& name : base_first_order(init_schema)) {
+    std::visit([&](auto trel) { this->add_relation(name, trel); },
+               init_schema.at(name));
   }
   assert(schema.size() == relations.size());
 }
diff --git a/cxx/irm.hh b/cxx/irm.hh
index c82ae70..28b46b2 100644
--- a/cxx/irm.hh
+++ b/cxx/irm.hh
@@ -18,6 +18,10 @@ using RelationVariant = std::variant<Relation<std::string>*, Relation<double>*,
 // Map from names to T_relation's.
 typedef std::map<std::string, T_relation> T_schema;
 
+// The names of the relations in the schema, every noisy relation after its
+// base relation.
+std::vector<std::string> base_first_order(const T_schema& schema);
+
 class IRM {
  public:
   T_schema schema;                                   // schema of relations
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 04bea79..8664c8b 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -651,8 +651,9 @@ void from_txt(std::mt19937* prng, IRM* const irm,
   assert(irm->domains.empty());
   assert(irm->relations.empty());
   assert(irm->domain_to_relations.empty());
-  for (const auto& [r, ds] : schema) {
-    std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
+  for (const std::string& r : base_first_order(schema)) {
+    std::visit([&](const auto& trel) { irm->add_relation(r, trel); },
+               schema.at(r));
   }
   // Add the domain entities with fixed clustering.
   T_encoding_f item_to_code = std::get<0>(encoding);
@@ -682,8 +683,8 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   assert(hirm->irms.empty());
   assert(hirm->relation_to_code.empty());
   assert(hirm->code_to_relation.empty());
-  for (const auto& [r, ds] : schema) {
-    hirm->add_relation(prng, r, ds);
+  for (const std::string& r : base_first_order(schema)) {
+    hirm->add_relation(prng, r, schema.at(r));
     assert(hirm->irms.size() == hirm->crp.tables.size());
     hirm->set_cluster_assignment_gibbs(prng, r, -1);
   }
-- 
2.43.0


From 466aaaa21dc0a90b14f59e2da6a2c0682a2bd289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 17/42] fix: sampling a string of maximal length leaves Bigram
 as it was

---
 cxx/distributions/bigram.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f506cd7..d770e05 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -89,6 +89,8 @@ std::string Bigram::sample(std::mt19937* prng) {
   while (current_ind != num_chars) {
     sampled_string += index_to_char(current_ind);
     if (sampled_string.length() == max_length) {
+      // The string must end here; unincorporate below takes this back.
+      transition_dists[current_ind].incorporate(num_chars);
       break;
     }
     next_ind = transition_dists[current_ind].sample(prng);
-- 
2.43.0


From fb87d0b71f6c43204bb681ff044a2ae905c83502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 18/42] fix: the Skellam log probability stays finite

std::cyl_bessel_i overflows (or throws) for large rates and underflows for
large counts, so that a cluster could get a score of inf, -inf or nan.
---
 cxx/distributions/skellam.cc | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/skellam.cc b/cxx/distributions/skellam.cc
index ee3f795..ccc8c3c 100644
--- a/cxx/distributions/skellam.cc
+++ b/cxx/distributions/skellam.cc
@@ -2,8 +2,36 @@
 
 #include <cassert>
 #include <cmath>
+#include <limits>
 #include "util_math.hh"
 
+// The logarithm of the modified Bessel function I_nu(x) for x > 0.
+// std::cyl_bessel_i itself overflows when x is large and underflows when nu is
+// large compared to x.
+double log_bessel_i(double nu, double x) {
+  if (x > 500.0) {
+    // The uniform asymptotic expansion (Abramowitz and Stegun 9.7.7).
+    double r = std::hypot(nu, x);
+    double p = nu / r;
+    double p2 = p * p;
+    double u1 = (3.0 - 5.0 * p2) / (24.0 * r);
+    double u2 = (81.0 + p2 * (-462.0 + p2 * 385.0)) / (1152.0 * r * r);
+    return r - nu * std::asinh(nu / x)
+        - 0.5 * std::log(2.0 * std::numbers::pi * r) + std::log1p(u1 + u2);
+  }
+  double v = std::cyl_bessel_i(nu, x);
+  if (v >= std::numeric_limits<double>::min()) {
+    return std::log(v);
+  }
+  // The power series, with the first term factored out.
+  double sum = 1.0, term = 1.0;
+  for (int k = 1; term > 1e-17 * sum; ++k) {
+    term *= (x / 2.0) * (x / 2.0) / (k * (nu + k));
+    sum += term;
+  }
+  return nu * std::log(x / 2.0) - std::lgamma(nu + 1.0) + std::log(sum);
+}
+
 double lognormal_logp(double x, double mean, double stddev) {
   double y = (std::log(x) - mean) / stddev;
   return - y*y / 2.0
@@ -12,8 +40,7 @@ double lognormal_logp(double x, double mean, double stddev) {
 
 double Skellam::logp(const int&x) const {
   return -mu1 - mu2 + (x / 2.0) * std::log(mu1 / mu2)
-      // TODO(thomaswc): Replace this with something more numerically stable.
-      + std::log(std::cyl_bessel_i(std::abs(x), 2.0 * std::sqrt(mu1 * mu2)));
+      + log_bessel_i(std::abs(x), 2.0 * std::sqrt(mu1 * mu2));
 }
 
 int Skellam::sample(std::mt19937* prng) {
-- 
2.43.0


From 9edfbc83d61ecf62e611b3fcef02da5cdcf04c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 19/42] fix: the string nearest to a Bigram's support is not
 longer than its maximum

Otherwise a latent value inferred from a longer noisy string ends the process
when it is incorporated.
---
 cxx/distributions/bigram.hh     | 4 ++++
 cxx/distributions/string_nat.hh | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxx/distributions/bigram.hh b/cxx/distributions/bigram.hh
index 7245012..0739bff 100644
--- a/cxx/distributions/bigram.hh
+++ b/cxx/distributions/bigram.hh
@@ -47,4 +47,8 @@ class Bigram : public Distribution<std::string> {
   void set_alpha(double alphat);
 
   void transition_hyperparameters(std::mt19937* prng);
+
+  std::string nearest(const std::string& x) const {
+    return max_length > 0 ? x.substr(0, max_length) : x;
+  }
 };
diff --git a/cxx/distributions/string_nat.hh b/cxx/distributions/string_nat.hh
index 5acd2d9..e2f830c 100644
--- a/cxx/distributions/string_nat.hh
+++ b/cxx/distributions/string_nat.hh
@@ -22,6 +22,6 @@ class StringNat : public Bigram {
         s += c;
       }
     }
-    return s;
+    return Bigram::nearest(s);
   }
 };
-- 
2.43.0


From 348f1502665e99602cfe3c4b720db75d601e9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 20/42] fix: a schema line that ends early or does not match
 its base is refused

---
 cxx/util_io.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 8664c8b..1667aa4 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -25,6 +25,9 @@ void verify_noisy_relation_domains(const T_schema& schema) {
             std::vector<std::string> base_domains =
                 std::visit([&](const auto& brel) { return brel.domains; },
                            schema.at(trel.base_relation));
+            assert(base_domains.size() <= trel.domains.size() &&
+                   "A noisy relation must have at least the domains of the "
+                   "base relation.");
             for (size_t i = 0; i != base_domains.size(); ++i) {
               assert(base_domains[i] == trel.domains[i] &&
                      "The first domains of a noisy relation must be the same "
@@ -36,12 +39,15 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   }
 }
 
-#define TYPE_CHECK(i, expected_type)                                        \
+#define SIZE_CHECK(i)                                                       \
   if (i >= tokens.size()) {                                                 \
     printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
            line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
+    std::exit(1);                                                           \
+  }
+
+#define TYPE_CHECK(i, expected_type)                                        \
+  SIZE_CHECK(i)                                                             \
   if (tokens[i].type != TokenType::expected_type) {                         \
     printf(                                                                 \
         "Error parsing schema line %s:  expected expected_type for %ld-th " \
@@ -53,11 +59,7 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   }
 
 #define VAL_CHECK(i, expected_val)                                          \
-  if (i >= tokens.size()) {                                                 \
-    printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
-           line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
+  SIZE_CHECK(i)                                                             \
   if (tokens[i].val != expected_val) {                                      \
     printf("Error parsing schema line %s:  expected %s for %ld-th token\n", \
            line.c_str(), expected_val, i + 1);                              \
@@ -94,6 +96,7 @@ T_schema load_schema(const std::string& path) {
     std::string dist_name = tokens[2].val;
 
     i = 3;
+    SIZE_CHECK(i);
     std::map<std::string, std::string> params;
     if (tokens[i].val == "[") {  // Handle parameters
       do {
@@ -104,6 +107,7 @@ T_schema load_schema(const std::string& path) {
         VAL_CHECK(i, "=");
         ++i;
 
+        SIZE_CHECK(i + 1);
         params[param_name] = tokens[i++].val;
 
         if ((tokens[i].val != ",") && (tokens[i].val != "]")) {
@@ -129,12 +133,14 @@ T_schema load_schema(const std::string& path) {
 
     TYPE_CHECK(i, identifier);
 
+    SIZE_CHECK(i + 1);
     if (tokens[i + 1].val == ";") {  // We have an emission!
       base_relation = tokens[i].val;
       i += 2;
     }
 
     do {
+      SIZE_CHECK(i + 1);
       domains.push_back(tokens[i++].val);
 
       if ((tokens[i].val != ",") && (tokens[i].val != ")")) {
-- 
2.43.0


From 962533faa35c9d3b7454b75a16dc086a1d38c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 21/42] fix: reading a CSV table checks the number of fields of
 every row

---
 cxx/pclean/csv.cc | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e9f527f..e573158 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -1,9 +1,9 @@
 #include "pclean/csv.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cctype>
 #include <fstream>
-#include <sstream>
 
 DataFrame DataFrame::from_csv(
     const std::string& filename, const std::vector<std::string>& column_names) {
@@ -39,33 +39,34 @@ DataFrame DataFrame::from_csv(
       continue;
     }
 
-    std::stringstream ss(line);
-    std::string part;
-    size_t i = 0;
     // TODO(thomaswc): Handle quoted fields
-    while (std::getline(ss, part, ',')) {
+    std::vector<std::string> parts;
+    size_t start = 0;
+    while (start <= line.size()) {
+      size_t end = std::min(line.find(',', start), line.size());
+      std::string part = line.substr(start, end - start);
+      start = end + 1;
       // Erase white space from end of part
-      while (isspace(part.back())) {
+      while (!part.empty() && isspace(part.back())) {
         part.pop_back();
       }
-      if (first_line && column_names.empty()) {
-        df.columns.push_back(part);
-        df.data[part] = {};
-        continue;
-      }
-
-      df.data[df.columns[i++]].push_back(part);
+      parts.push_back(part);
     }
-    if (!first_line) {
-      if (line.back() == ',') {
-        // std::getline is broken and won't let the last field be empty.
-        df.data[df.columns[i++]].push_back("");
+
+    if (first_line && column_names.empty()) {
+      df.columns = parts;
+      for (const auto& c : parts) {
+        df.data[c] = {};
       }
-      if (i != df.columns.size()) {
-        printf("Only found %ld out of %ld expected columns in line\n%s\n",
-               i, df.columns.size(), line.c_str());
+    } else {
+      if (parts.size() != df.columns.size()) {
+        printf("Found %ld columns instead of the expected %ld in line\n%s\n",
+               parts.size(), df.columns.size(), line.c_str());
         assert(false);
       }
+      for (size_t i = 0; i < parts.size(); ++i) {
+        df.data[df.columns[i]].push_back(parts[i]);
+      }
     }
     first_line = false;
   }
-- 
2.43.0


From 4f7fcf16929a72651a4942174b367c0c41c3ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 22/42] fix: truncated parameters of a PClean variable are
 refused

---
 cxx/pclean/io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index c4e0325..b48262d 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -36,7 +36,7 @@ bool resolve_variable_definition(const std::vector<Token> &tokens,
   ScalarVar dv;
   dv.joint_name = tokens[2].val;
   for (size_t i = 4; i < tokens.size() - 1; i += 4) {
-    if (i + 3 > tokens.size()) {
+    if (i + 3 >= tokens.size()) {
       printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
       printf("At token %ld of %ld\n", i, tokens.size());
       return false;
-- 
2.43.0


From ffbc51d1647dfdbfcd64c9d17b92fb6be3f73f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 23/42] fix: held out observations do not change the codes of
 the training observations

---
 cxx/hirm_main.cc | 11 +++++------
 cxx/util_io.cc   | 20 +++++++++++---------
 cxx/util_io.hh   |  6 ++++++
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 0d03dcd..3a28804 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -76,17 +76,16 @@ int main(int argc, char** argv) {
 
   std::string held_out = result["heldout"].as<std::string>();
   T_observations heldout_obs;
-  T_observations encoding_observations;
-  if (held_out.empty()) {
-    encoding_observations = observations;
-  } else {
+  if (!held_out.empty()) {
     std::cout << "loading held out observations from " << held_out << std::endl;
     heldout_obs = load_observations(held_out, schema);
-    encoding_observations = merge_observations(observations, heldout_obs);
   }
 
+  // A model loaded from its clusters has the encoding of its observations, so
+  // the held out observations can only add to that.
   std::cout << "Encoding observations ...\n";
-  T_encoding encoding = calculate_encoding(schema, encoding_observations);
+  T_encoding encoding = calculate_encoding(schema, observations);
+  extend_encoding(schema, heldout_obs, &encoding);
 
   if (mode == "irm") {
     std::cout << "selected model is IRM" << std::endl;
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1667aa4..397d43e 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -263,19 +263,23 @@ void write_observations(const std::string& path,
 // Assumes that T_item is integer.
 T_encoding calculate_encoding(const T_schema& schema,
                               const T_observations& observations) {
-  // Counter and encoding maps.
-  std::map<std::string, int> domain_item_counter;
-  T_encoding_f item_to_code;
-  T_encoding_r code_to_item;
-  // Create a counter of items for each domain.
+  T_encoding encoding;
+  auto& [item_to_code, code_to_item] = encoding;
   for (const auto& [r, relation] : schema) {
     for (const std::string& domain :
          std::visit([](const auto& r) { return r.domains; }, relation)) {
-      domain_item_counter[domain] = 0;
       item_to_code[domain] = std::map<std::string, T_item>();
       code_to_item[domain] = std::map<T_item, std::string>();
     }
   }
+  extend_encoding(schema, observations, &encoding);
+  return encoding;
+}
+
+void extend_encoding(const T_schema& schema,
+                     const T_observations& observations,
+                     T_encoding* encoding) {
+  auto& [item_to_code, code_to_item] = *encoding;
   // Create the codes for each item.
   for (const auto& [relation, obs] : observations) {
     for (const auto& i : obs) {
@@ -288,16 +292,14 @@ T_encoding calculate_encoding(const T_schema& schema,
         std::string domain = domains.at(counter);
         // Compute its code, if necessary.
         if (!item_to_code.at(domain).contains(item)) {
-          int code = domain_item_counter[domain];
+          int code = std::ssize(item_to_code.at(domain));
           item_to_code[domain][item] = code;
           code_to_item[domain][code] = item;
-          ++domain_item_counter[domain];
         }
         ++counter;
       }
     }
   }
-  return std::make_pair(item_to_code, code_to_item);
 }
 
 T_encoded_observations encode_observations(const T_observations& observations,
diff --git a/cxx/util_io.hh b/cxx/util_io.hh
index a6d8779..16201b7 100644
--- a/cxx/util_io.hh
+++ b/cxx/util_io.hh
@@ -28,6 +28,12 @@ void write_observations(
 T_encoding calculate_encoding(
     const T_schema& schema, const T_observations& observations);
 
+// Adds the items of the observations that the encoding lacks. The codes it
+// already has stay as they are.
+void extend_encoding(
+    const T_schema& schema, const T_observations& observations,
+    T_encoding* encoding);
+
 // Returns the encoded version of the input observations.
 T_encoded_observations encode_observations(
     const T_observations& observations, const T_encoding& encoding,
-- 
2.43.0


From d35edca0807a7c2c3a23092f2f833a1a9407d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 24/42] fix: the relations of a PClean schema know where their
 references are

---
 cxx/gendb.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8bfc2e0..3bd8f40 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -945,11 +945,10 @@ void GenDB::compute_reference_indices_for(const std::string& name) {
       const int offset = total_offset;
       total_offset += domains.at(cv->class_name).size();
       class_ref_indices[v.first] = total_offset - 1;
-      std::map<std::string, int> child_class_indices;
       if (class_reference_indices.contains(cv->class_name)) {
         for (const auto& [ind, ref] :
              class_reference_indices.at(cv->class_name)) {
-          std::map<std::string, int> class_ref_indices;
+          std::map<std::string, int> child_class_indices;
           for (const auto& [field_name, ref_ind] : ref) {
             child_class_indices[field_name] = ref_ind + offset;
           }
@@ -1000,6 +999,11 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
       cr.is_observed = true;
       (*tschema)[f.name] = cr;
       tschema->erase(base_relation_name);
+      if (class_reference_indices.contains(record_class.name)) {
+        relation_reference_indices[f.name] =
+            class_reference_indices.at(record_class.name);
+        relation_reference_indices.erase(base_relation_name);
+      }
     } else {
       T_noisy_relation tnr =
           get_emission_relation(std::get<ScalarVar>(last_var.spec),
@@ -1031,8 +1035,10 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
     // If the record class is the only class in the schema, there will be
     // no entries in `relation_reference_indices`.
     if (relation_reference_indices.contains(base_relation_name)) {
-      relation_reference_indices[f.name] =
-          relation_reference_indices.at(base_relation_name);
+      for (const auto& [ind, refs] :
+           relation_reference_indices.at(base_relation_name)) {
+        relation_reference_indices[f.name][ind] = refs;
+      }
     }
     return;
   }
-- 
2.43.0


From 69c8b8d5c3af7c26abd359de5c7ed9c9ef8d9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 25/42] fix: every part of a new row gets its own entities and
 its observed values

---
 cxx/gendb.cc | 50 ++++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 3bd8f40..2a875d3 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -31,6 +31,7 @@ GenDB::GenDB(std::mt19937* prng, const PCleanSchema& schema_,
   for (const auto& [class_name, unused_class] : schema.classes) {
     entity_crps[class_name] = CRP();
     reference_values[class_name];
+    class_to_relations[class_name];
   }
   for (const auto& [rel_name, trel] : hirm->schema) {
     const std::vector<std::string>& domains =
@@ -56,13 +57,15 @@ void GenDB::incorporate(
   // Maps a query relation name to an observed value.
   std::map<std::string, ObservationVariant> vals = row.second;
 
-  // Loop over the values in the row, and their query relation names.
-  for (const auto& [query_rel, val] : vals) {
-    // Sample a set of items to be incorporated into the query relation.
+  // Get a set of items to be incorporated into each query relation. This
+  // populates the references along every part of the row before any value is
+  // incorporated, since that samples the references that are still missing.
+  std::map<std::string, T_items> row_items;
+  for (const auto& [query_rel, unused_val] : vals) {
     const std::vector<std::string>& class_path =
         schema.query.fields.at(query_rel).class_path;
 
-    T_items items;
+    T_items& items = row_items[query_rel];
     if (new_rows_have_unique_entities) {
       const std::vector<std::string>& domains = std::visit(
           [&](auto tr) { return tr.domains; }, hirm->schema.at(query_rel));
@@ -73,9 +76,11 @@ void GenDB::incorporate(
           sample_entities_relation(prng, schema.query.record_class,
                                    class_path.cbegin(), class_path.cend(), id);
     }
+  }
 
-    // Incorporate the items/value into the query relation.
-    incorporate_query_relation(prng, query_rel, items, val);
+  // Incorporate the items/values into the query relations.
+  for (const auto& [query_rel, val] : vals) {
+    incorporate_query_relation(prng, query_rel, row_items.at(query_rel), val);
   }
 }
 
@@ -197,32 +202,29 @@ void GenDB::incorporate_query_relation(std::mt19937* prng,
 
 // Samples and incorporates a value into all relations belonging to class_name
 // (including class attributes and noisy observations of ancestor class
-// attributes). Recursively calls itself on base relations.
+// attributes) that do not have one. Recursively calls itself on the entities
+// that the item refers to.
 void GenDB::sample_and_incorporate_for_class(std::mt19937* prng,
                                              const std::string& class_name,
                                              const T_item& item) {
+  sample_class_ancestors(prng, class_name, item);
+  for (const auto& [name, var] : schema.classes.at(class_name).vars) {
+    if (const ClassVar* cv = std::get_if<ClassVar>(&(var.spec))) {
+      sample_and_incorporate_for_class(
+          prng, cv->class_name,
+          reference_values.at(class_name).at({name, item}));
+    }
+  }
+
   for (const std::string& rel_name : class_to_relations.at(class_name)) {
-    sample_class_ancestors(prng, class_name, item);
+    // The values of query relations are observed, not sampled.
+    if (schema.query.fields.contains(rel_name)) {
+      continue;
+    }
     const std::vector<std::string>& domains = std::visit(
         [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
     T_items rel_items(domains.size());
     get_relation_items(rel_name, domains.size() - 1, item, rel_items);
-    if (const T_noisy_relation* t_rel =
-            std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-      RelationVariant rel = hirm->get_relation(rel_name);
-      T_items base_items = std::visit(
-          [&](auto nr) {
-            using T = typename std::remove_pointer_t<decltype(nr)>::ValueType;
-            auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(nr);
-            return noisy_rel->get_base_items(rel_items);
-          },
-          rel);
-      auto t_base_rel = hirm->schema.at(t_rel->base_relation);
-      auto base_domains =
-          std::visit([&](auto tbf) { return tbf.domains; }, t_base_rel);
-      sample_and_incorporate_for_class(prng, base_domains.back(),
-                                       base_items.back());
-    }
     bool contains_items = std::visit(
         [&](auto rel) { return rel->get_data().contains(rel_items); },
         hirm->get_relation(rel_name));
-- 
2.43.0


From a487927d8b1d827fea218929db09f03ef74f79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 26/42] fix: a reference transition moves all data of the
 reference and leaves no orphans

---
 cxx/gendb.cc | 189 +++++++++++++++++++++++++++++----------------------
 cxx/gendb.hh |   8 ++-
 2 files changed, 114 insertions(+), 83 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 2a875d3..e1f55b1 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -3,6 +3,7 @@
 
 #include "gendb.hh"
 
+#include <algorithm>
 #include <map>
 #include <random>
 #include <string>
@@ -286,21 +287,40 @@ void GenDB::get_relation_items(const std::string& rel_name, const int ind,
   }
 }
 
+// Sorts the relations such that every noisy relation comes before the relations
+// it depends on (which have fewer domains, unless the base relation is clean).
+void GenDB::sort_noisy_before_base(std::vector<std::string>& rel_names) const {
+  auto depth = [&](const std::string& rel_name) {
+    const T_relation& trel = hirm->schema.at(rel_name);
+    return std::make_pair(
+        std::visit([](const auto& tr) { return tr.domains.size(); }, trel),
+        std::holds_alternative<T_noisy_relation>(trel));
+  };
+  std::stable_sort(rel_names.begin(), rel_names.end(),
+                   [&](const std::string& r1, const std::string& r2) {
+                     return depth(r1) > depth(r2);
+                   });
+}
+
 // Returns a map of relation name to the indices (in the items vector) where
 // the reference field appears.
 std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
     const std::string& class_name, const std::string& ref_field) {
   std::map<std::string, std::vector<size_t>> domain_inds;
-  for (const auto& [rel_name, query_field] : schema.query.fields) {
+  for (const auto& [rel_name, unused_trel] : hirm->schema) {
     // Find relations that involve both the class and its reference field
     // (exclude relations that include the class only because it's a node in
     // a noisy observation path of something otherwise unrelated to the
     // observed attribute.)
     std::vector<std::string> domains = std::visit(
         [&](auto& trel) { return trel.domains; }, hirm->schema.at(rel_name));
+    if (!relation_reference_indices.contains(rel_name)) {
+      continue;
+    }
+    const auto& ref_indices = relation_reference_indices.at(rel_name);
     for (size_t i = 0; i < domains.size(); ++i) {
-      if (domains[i] == class_name &&
-          relation_reference_indices.at(rel_name).at(i).contains(ref_field)) {
+      if (domains[i] == class_name && ref_indices.contains(i) &&
+          ref_indices.at(i).contains(ref_field)) {
         domain_inds[rel_name].push_back(i);
       }
     }
@@ -321,7 +341,13 @@ double GenDB::unincorporate_reference(
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains) {
   double logp_relations = 0.;
-  for (auto [rel_name, inds] : domain_inds) {
+  std::vector<std::string> rel_names;
+  for (const auto& [rel_name, unused_inds] : domain_inds) {
+    rel_names.push_back(rel_name);
+  }
+  sort_noisy_before_base(rel_names);
+  for (const std::string& rel_name : rel_names) {
+    const std::vector<size_t>& inds = domain_inds.at(rel_name);
     RelationVariant r = hirm->get_relation(rel_name);
     bool data_r_contains_item = std::visit(
         [&](auto rel) {
@@ -340,7 +366,7 @@ double GenDB::unincorporate_reference(
           if (item[ind] == class_item) {
             auto f = [&](auto rel) {
               logp_relations += unincorporate_reference_relation(
-                  rel, rel_name, item, ind, stored_value_map);
+                  rel, rel_name, item, stored_value_map);
             };
             std::visit(f, r);
           }
@@ -364,17 +390,15 @@ double GenDB::unincorporate_reference(
   return logp_relations + logp_domain_cluster;
 }
 
-// Recursively unincorporates from base relations and stores values.
+// Unincorporates and stores the value of a single relation. Noisy relations that
+// observe it have to be unincorporated before.
 template <typename T>
 double GenDB::unincorporate_reference_relation(
     Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    const size_t ind,
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than or equal to the number of domains.
-  if (!rel->get_data().contains(items) || ind >= items.size()) {
+  if (!rel->get_data().contains(items)) {
     return 0.;
   }
 
@@ -387,17 +411,6 @@ double GenDB::unincorporate_reference_relation(
   double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
   // Clean up data but leave empty clusters in case they are re-populated later.
   rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation(
-        base_rel_t, t_rel->base_relation, base_items, ind, stored_value_map);
-  }
   return logp_rel;
 }
 
@@ -469,6 +482,16 @@ void GenDB::incorporate_reference_relation(
     // A base relation may have already been reincorporated by a different noisy
     // relation.
     if (!rel->get_data().contains(items)) {
+      // An entity that is new may not have a value of the base relation.
+      if (const T_noisy_relation* trel =
+              std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
+        NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
+        T_items base_items = noisy_rel->get_base_items(items);
+        if (!noisy_rel->base_relation->get_data().contains(base_items)) {
+          hirm->sample_and_incorporate_relation(prng, trel->base_relation,
+                                                base_items);
+        }
+      }
       rel->incorporate(prng, items, std::get<T>(value));
     }
   }
@@ -556,33 +579,34 @@ double GenDB::unincorporate_from_entity_cluster(
     if (is_ancestor_reference) {
       logp_adj += crp.logp(ref_item);
     }
+  } else {
+    if (is_ancestor_reference) {
+      logp_adj += crp.logp_new_table();
+    }
 
     for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
       if (std::holds_alternative<ClassVar>(var.spec)) {
         // If this reference value was the only one in its entity_crp table,
         // then the entity is removed from its class and we need to
         // recursively unincorporate *its* reference values.
-        logp_adj += unincorporate_from_entity_cluster(ref_class, name, ref_item,
-                                                      unincorporated);
+        if (reference_values.at(ref_class).contains({name, ref_item})) {
+          logp_adj += unincorporate_from_entity_cluster(
+              ref_class, name, ref_item, unincorporated);
+        }
       }
     }
-  } else {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp_new_table();
-    }
   }
   return logp_adj;
 }
 
-// Recursively unincorporates from base relations and stores values.
+// Unincorporates and stores the value of a relation for an entity that nothing
+// refers to any more.
 template <typename T>
 double GenDB::unincorporate_reference_relation_singleton(
     Relation<T>* rel, const std::string& rel_name, const T_items& items,
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than the number of domains.
   const std::vector<std::string>& domains = std::visit(
       [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
   if (!rel->get_data().contains(items) ||
@@ -600,17 +624,6 @@ double GenDB::unincorporate_reference_relation_singleton(
   double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
   // Clean up data but leave empty clusters in case they are re-populated later.
   rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation_singleton(
-        base_rel_t, t_rel->base_relation, base_items, stored_value_map);
-  }
   return logp_rel;
 }
 
@@ -635,26 +648,46 @@ double GenDB::unincorporate_singleton(
       unincorporate_from_entity_cluster(class_name, ref_field, class_item,
                                         unincorporated_from_entity_crps, false);
 
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += std::visit(
-        [&](auto r) {
-          return unincorporate_reference_relation_singleton(r, rel, base_items,
-                                                            stored_value_map);
-        },
-        hirm->get_relation(rel));
+  // The rows to remove: that of the entity itself and those of its ancestors
+  // that nothing refers to any more, descendants first.
+  std::vector<std::pair<std::string, T_item>> removed = {{ref_class, ref_val}};
+  for (const auto& [k, v] : unincorporated_from_entity_crps) {
+    const auto& [c, field, unused_item] = k;
+    const std::string& ancestor_class =
+        std::get<ClassVar>(schema.classes.at(c).vars.at(field).spec).class_name;
+    std::pair<std::string, T_item> ancestor = {ancestor_class, v};
+    if (!entity_crps.at(ancestor_class).tables.contains(v) &&
+        std::find(removed.begin(), removed.end(), ancestor) == removed.end()) {
+      removed.push_back(ancestor);
+    }
   }
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += unincorporate_from_domain_cluster_relation(
-        rel, base_items.back(), base_items.size() - 1,
-        unincorporated_from_domains);
+  std::stable_sort(removed.begin(), removed.end(),
+                   [&](const auto& r1, const auto& r2) {
+                     return domains.at(r1.first).size() >
+                            domains.at(r2.first).size();
+                   });
+
+  for (const auto& [c, item] : removed) {
+    for (auto& rel : class_to_relations.at(c)) {
+      const size_t num_domains = std::visit(
+          [&](auto tr) { return tr.domains.size(); }, hirm->schema.at(rel));
+      T_items base_items(num_domains);
+      get_relation_items(rel, num_domains - 1, item, base_items);
+      logp_refclass += std::visit(
+          [&](auto r) {
+            return unincorporate_reference_relation_singleton(
+                r, rel, base_items, stored_value_map);
+          },
+          hirm->get_relation(rel));
+    }
+  }
+  for (const auto& [c, item] : removed) {
+    for (auto& rel : class_to_relations.at(c)) {
+      const size_t num_domains = std::visit(
+          [&](auto tr) { return tr.domains.size(); }, hirm->schema.at(rel));
+      logp_refclass += unincorporate_from_domain_cluster_relation(
+          rel, item, num_domains - 1, unincorporated_from_domains);
+    }
   }
   return logp_refclass;
 }
@@ -675,6 +708,17 @@ void GenDB::transition_reference(std::mt19937* prng,
     return;
   }
 
+  // Complete the rows of the entities that the class item may refer to: values
+  // that were not needed so far have to be sampled while all of the data is
+  // incorporated.
+  const std::vector<std::string>& classes = domains.at(ref_class);
+  for (auto it = classes.crbegin(); it != classes.crend(); ++it) {
+    const auto tables = entity_crps.at(*it).tables;
+    for (const auto& [entity, unused_customers] : tables) {
+      sample_and_incorporate_for_class(prng, *it, entity);
+    }
+  }
+
   // For each relation, get the indices (in the items vector) of the reference
   // value being transitioned.
   std::map<std::string, std::vector<size_t>> domain_inds =
@@ -745,26 +789,11 @@ void GenDB::transition_reference(std::mt19937* prng,
     // Handle the singleton entity, if it was not init_refval (i.e. it is
     // previously unseen).
     if (table == singleton_entity) {
-      // Sample and incorporate a new row into the ref_class table. Update
-      // reference_values and entity_crps.
-      T_items unused_base_items =
-          sample_class_ancestors(prng, ref_class, table);
-
-      // Sample and incorporate values into the relations corresponding to
-      // the reference class. This may also incorporate new values into the IRM
-      // domain clusters.
-      for (auto& rel : class_to_relations.at(ref_class)) {
-        const std::vector<std::string>& domains = std::visit(
-            [&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-        T_items base_items(domains.size());
-        get_relation_items(rel, base_items.size() - 1, table, base_items);
-        bool c = std::visit(
-            [&](auto r) { return r->get_data().contains(base_items); },
-            hirm->get_relation(rel));
-        if (!c) {
-          hirm->sample_and_incorporate_relation(prng, rel, base_items);
-        }
-      }
+      // Sample and incorporate a new row into the ref_class table: update
+      // reference_values and entity_crps, and sample values into the relations
+      // corresponding to the reference class. This may also incorporate new
+      // values into the IRM domain clusters.
+      sample_and_incorporate_for_class(prng, ref_class, table);
     }
 
     // Get items and values with new entity linkages.
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9485974..4537f03 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -71,6 +71,9 @@ class GenDB {
   void get_relation_items(const std::string& rel_name, const int ind,
                           const int class_item, T_items& items) const;
 
+  // Sorts relation names such that noisy relations precede their bases.
+  void sort_noisy_before_base(std::vector<std::string>& rel_names) const;
+
   // Returns a map of relation name to the indices (in the items vector) where
   // the reference field appears.
   std::map<std::string, std::vector<size_t>> get_domain_inds(
@@ -92,13 +95,12 @@ class GenDB {
   template <typename T>
   double unincorporate_reference_relation(
       Relation<T>* rel, const std::string& rel_name, const T_items& items,
-      const size_t ind,
       std::map<std::string,
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map);
 
-  // Recursively unincorporates from base relations and stores values. Returns
-  // the logp of the unincorporated values.
+  // Unincorporates and stores the items/value of an entity that nothing refers
+  // to any more. Returns the logp of the unincorporated value.
   template <typename T>
   double unincorporate_reference_relation_singleton(
       Relation<T>* rel, const std::string& rel_name, const T_items& items,
-- 
2.43.0


From 3d5af07417b8a7277415402acaeb8d44f9fc0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 27/42] fix: the weights of a reference leave out what is drawn
 from the prior

---
 cxx/gendb.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index e1f55b1..7c7e076 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -376,18 +376,19 @@ double GenDB::unincorporate_reference(
   }
 
   // Check if any entities need to be removed from IRM domain clusters (after
-  // they've been unincorporated from relations) and compute the change in logp.
-  double logp_domain_cluster = 0.;
+  // they've been unincorporated from relations). The entities that are not in
+  // the data are assigned to clusters by the domain CRP, whichever entity is
+  // referred to, so that this does not change the logp of the reference.
   int ref_val = reference_values.at(class_name).at({ref_field, class_item});
   for (auto& [rel_name, inds] : domain_inds) {
     for (int d_ind : inds) {
       int r_ind =
           relation_reference_indices.at(rel_name).at(d_ind).at(ref_field);
-      logp_domain_cluster += unincorporate_from_domain_cluster_relation(
-          rel_name, ref_val, r_ind, unincorporated_from_domains);
+      unincorporate_from_domain_cluster_relation(rel_name, ref_val, r_ind,
+                                                 unincorporated_from_domains);
     }
   }
-  return logp_relations + logp_domain_cluster;
+  return logp_relations;
 }
 
 // Unincorporates and stores the value of a single relation. Noisy relations that
@@ -758,7 +759,9 @@ void GenDB::transition_reference(std::mt19937* prng,
   // references to it, and it is the sole member of its entity CRP table), we
   // need to unincorporate its row from the class that it references (including
   // unincorporating all associated data from the relations associated with its
-  // attributes).
+  // attributes). The row of a singleton is a sample from the prior, be it the
+  // current one or a new one, so its logp is not part of the logp of the
+  // reference.
   std::map<std::string,
            std::unordered_map<T_items, ObservationVariant, H_items>>
       ref_class_relation_stored_values;  // Stores data unincorporated from
@@ -766,11 +769,10 @@ void GenDB::transition_reference(std::mt19937* prng,
   std::map<std::tuple<std::string, std::string, int>, int>
       unincorporated_from_entity_crps;
   if (singleton_entity == init_refval) {
-    logp_current +=
-        unincorporate_singleton(class_name, ref_field, class_item, ref_class,
-                                ref_class_relation_stored_values,
-                                unincorporated_from_domains[init_refval],
-                                unincorporated_from_entity_crps);
+    unincorporate_singleton(class_name, ref_field, class_item, ref_class,
+                            ref_class_relation_stored_values,
+                            unincorporated_from_domains[init_refval],
+                            unincorporated_from_entity_crps);
   }
 
   // Loop over the candidate reference values and compute the logp of each.
@@ -817,7 +819,7 @@ void GenDB::transition_reference(std::mt19937* prng,
     // the entity CRPs. Unincorporate and store the items/values corresponding
     // to the added row in the reference class and their IRM domain clusters.
     if (table == singleton_entity) {
-      logps[i] += unincorporate_singleton(
+      unincorporate_singleton(
           class_name, ref_field, class_item, ref_class,
           ref_class_relation_stored_values, unincorporated_from_domains[table],
           unincorporated_from_entity_crps);
-- 
2.43.0


From d3a46c2824694aedadbbe39976d24251e26cf72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 28/42] fix: BigramStringEmission unincorporates what it
 incorporated

---
 cxx/emissions/bigram_string.cc | 48 ++++++++++++++++++++++++++++------
 cxx/emissions/bigram_string.hh | 24 ++++++++++++++---
 2 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 94d14f7..f14319c 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -123,7 +123,31 @@ void BigramStringEmission::incorporate(
     const std::pair<std::string, std::string>& x, double weight) {
   N += weight;
 
+  std::vector<std::vector<Count>>& incorporated = incorporated_counts[x];
+  std::vector<Count> counts;
+  if (weight < 0 && !incorporated.empty()) {
+    // Take back exactly what the incorporate being undone has counted.
+    counts = incorporated.back();
+    incorporated.pop_back();
+  } else {
+    counts = get_counts(x);
+    incorporated.push_back(counts);
+  }
+  if (incorporated.empty()) {
+    incorporated_counts.erase(x);
+  }
+
+  for (const Count& c : counts) {
+    std::vector<DirichletCategorical>& model =
+        c.is_insertion ? insertions : substitutions;
+    model[c.context].incorporate(c.category, weight * c.weight);
+  }
+}
+
+std::vector<BigramStringEmission::Count> BigramStringEmission::get_counts(
+    const std::pair<std::string, std::string>& x) {
   std::vector<StrAlignment> alignments;
+  std::vector<Count> counts;
 
   topk_alignments(NUMBER_OF_STRING_ALIGNMENTS_TO_CONSIDER_WHEN_INCORPORATING,
                   x.first, x.second,
@@ -145,7 +169,7 @@ void BigramStringEmission::incorporate(
   }
 
   for (const auto& a : alignments) {
-    double w = weight * a.cost / total_prob;
+    double w = a.cost / total_prob;
     std::string insertion_context = "";
     for (auto it = a.align_pieces.begin();
          it != a.align_pieces.end();
@@ -156,15 +180,15 @@ void BigramStringEmission::incorporate(
           // which is actually no insertion, then a deletion.
           {
             char deleted_char = std::get<Deletion>(*it).deleted_char;
-            insertions[icontext].incorporate(0, w);
-            substitutions[get_index(deleted_char)].incorporate(0, w);
+            counts.push_back({true, icontext, 0, w});
+            counts.push_back({false, get_index(deleted_char), 0, w});
             insertion_context = std::string() + deleted_char;
           }
           break;
         case 1:  // Insertion
           {
             char inserted_char = std::get<Insertion>(*it).inserted_char;
-            insertions[icontext].incorporate(get_index(inserted_char), w);
+            counts.push_back({true, icontext, get_index(inserted_char), w});
           }
           break;
         case 2:  // Substitution
@@ -172,8 +196,8 @@ void BigramStringEmission::incorporate(
           {
             char original_char = std::get<Substitution>(*it).original;
             char replacement_char = std::get<Substitution>(*it).replacement;
-            insertions[icontext].incorporate(0, w);
-            substitutions[get_index(original_char)].incorporate(get_index(replacement_char), w);
+            counts.push_back({true, icontext, 0, w});
+            counts.push_back({false, get_index(original_char), get_index(replacement_char), w});
             insertion_context = std::string() + original_char;
           }
           break;
@@ -181,14 +205,22 @@ void BigramStringEmission::incorporate(
           // which is actually no insertion, then a match.
           {
             char c = std::get<Match>(*it).c;
-            insertions[icontext].incorporate(0, w);
-            substitutions[get_index(c)].incorporate(get_index(c), w);
+            counts.push_back({true, icontext, 0, w});
+            counts.push_back({false, get_index(c), get_index(c), w});
             insertion_context = std::string() + c;
           }
           break;
       }
     }
   }
+  return counts;
+}
+
+BigramStringEmission::BigramStringEmission(const BigramStringEmission& bse)
+    : insertions(bse.insertions),
+      substitutions(bse.substitutions),
+      initial_bias(bse.initial_bias) {
+  N = bse.N;
 }
 
 double BigramStringEmission::logp(
diff --git a/cxx/emissions/bigram_string.hh b/cxx/emissions/bigram_string.hh
index db4cd14..6ff362a 100644
--- a/cxx/emissions/bigram_string.hh
+++ b/cxx/emissions/bigram_string.hh
@@ -1,7 +1,8 @@
 #pragma once
 
 #include <cstdio>
-#include <unordered_map>
+#include <map>
+#include <utility>
 #include <vector>
 
 #include "string_alignment.hh"
@@ -56,7 +57,24 @@ class BigramStringEmission : public Emission<std::string> {
   // what has been incorporated.
   double initial_bias_logp_score(const DirichletCategorical& d) const;
 
+  // An increment of one of the counts of insertions or substitutions.
+  struct Count {
+    bool is_insertion;
+    size_t context;
+    size_t category;
+    double weight;
+  };
+
+  // The counts of the most probable alignments of x.
+  std::vector<Count> get_counts(const std::pair<std::string, std::string>& x);
+
+  // What each incorporate has counted, so that it can be undone: the alignments
+  // and their probabilities depend on everything else that is incorporated.
+  std::map<std::pair<std::string, std::string>, std::vector<std::vector<Count>>>
+      incorporated_counts;
+
   // This copy constructor is actually factually private, because it is only
-  // intended to be used in the logp(x) method.
-  BigramStringEmission(const BigramStringEmission& bse) = default;
+  // intended to be used in the logp(x) method. It does not copy
+  // incorporated_counts.
+  BigramStringEmission(const BigramStringEmission& bse);
 };
-- 
2.43.0


From 086e98dc552c687a0aa7b8c1fa9a4e3a0393372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 29/42] fix: held out rows and generated samples of PClean get
 rows and columns of their own

---
 cxx/pclean/pclean.cc     | 12 ++++++++++--
 cxx/pclean/pclean_lib.cc | 17 +++++++++++++++--
 cxx/pclean/pclean_lib.hh |  6 ++++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 0284376..ae83d9a 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -63,6 +63,11 @@ int main(int argc, char** argv) {
     return 0;
   }
 
+  if ((result["samples"].as<int>() > 0) && (result.count("output") < 1)) {
+    std::cout << "Must specify --output with --samples\n";
+    return 1;
+  }
+
   int seed = result["seed"].as<int>();
   std::cout << "Setting seed to " << seed << "\n";
   std::mt19937 prng(seed);
@@ -74,6 +79,7 @@ int main(int argc, char** argv) {
   std::cout << "Reading schema file from " << schema_fn << "\n";
   if (!read_schema_file(schema_fn, &pclean_schema)) {
     std::cout << "Error reading schema file" << schema_fn << "\n";
+    return 1;
   }
 
   // Make GenDB
@@ -93,6 +99,7 @@ int main(int argc, char** argv) {
   // Incorporate observations.
   std::cout << "Incorporating observations ...\n";
   incorporate_observations(&prng, &gendb, df);
+  int num_rows = df.data.begin()->second.size();
 
   // Run inference
   std::cout << "Running inference ...\n";
@@ -121,7 +128,8 @@ int main(int argc, char** argv) {
     DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
     std::cout << "Incorporating held out observations ...\n";
     double lp1 = gendb.logp_score();
-    incorporate_observations(&prng, &gendb, heldout_df);
+    incorporate_observations(&prng, &gendb, heldout_df, num_rows);
+    num_rows += heldout_df.data.begin()->second.size();
     double lp2 = gendb.logp_score();
     std::cout << "Log likelihood of held out data is " << (lp2 - lp1) << std::endl;
   }
@@ -131,7 +139,7 @@ int main(int argc, char** argv) {
     std::string samples_out = result["output"].as<std::string>() + ".samples";
     std::cout << "Generating " << num_samples << " samples\n";
     DataFrame samples_df = make_pclean_samples(
-        num_samples, df.data.begin()->second.size(), &gendb, &prng);
+        num_samples, num_rows, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
     samples_df.to_csv(samples_out);
   }
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 25dcbbe..6e1fb84 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -11,7 +11,8 @@
 
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df) {
+                              const DataFrame& df,
+                              int start_row) {
   int num_rows = df.data.begin()->second.size();
   for (int i = 0; i < num_rows; i++) {
     std::map<std::string, ObservationVariant> row_values;
@@ -50,7 +51,7 @@ void incorporate_observations(std::mt19937* prng,
     // TODO(emilyaf): Consider using new_rows_have_unique_entities=false
     // after entity transitions are allowed and numeric stability issues
     // are addressed.
-    gendb->incorporate(prng, std::make_pair(i, row_values), true);
+    gendb->incorporate(prng, std::make_pair(start_row + i, row_values), true);
   }
 }
 
@@ -77,6 +78,9 @@ DataFrame make_pclean_samples(int num_samples, int start_row, GenDB *gendb,
      std::map<std::string, std::string> query_values;
      make_pclean_sample(prng, gendb, start_row + i, &query_values);
      for (const auto& [column, val] : query_values) {
+       if (i == 0) {
+         df.columns.push_back(column);
+       }
        df.data[column].push_back(val);
      }
 
@@ -95,6 +99,15 @@ T_encoding make_dummy_encoding_from_gendb(const GenDB& gendb) {
       code_to_item[domain][i] = domain + ":" + std::to_string(i);
     }
   }
+  // The rows of the record class are not entities of an entity CRP.
+  for (const auto& [unused_table, irm] : gendb.hirm->irms) {
+    for (const auto& [domain_name, domain] : irm->domains) {
+      for (const T_item item : domain->items) {
+        code_to_item[domain_name][item] =
+            domain_name + ":" + std::to_string(item);
+      }
+    }
+  }
 
   return std::make_pair(item_to_code, code_to_item);
 }
diff --git a/cxx/pclean/pclean_lib.hh b/cxx/pclean/pclean_lib.hh
index a763294..09f3033 100644
--- a/cxx/pclean/pclean_lib.hh
+++ b/cxx/pclean/pclean_lib.hh
@@ -13,10 +13,12 @@
 // For each non-missing value in the DataFrame df, create an
 // observation and incorporate it into the GenDB.  The column name of the value
 // is used as the relation name, and each entity in each domain is given
-// its own unique value.
+// its own unique value.  The i-th row of df gets the id start_row + i, which
+// must not be the id of a row that was added to gendb before.
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df);
+                              const DataFrame& df,
+                              int start_row = 0);
 
 // Return a dataframe of num_samples samples from the GenDB.
 // All existing rows added to gendb should have ids < start_row.
-- 
2.43.0


From 1a93d965991ae1a2c62b199ec29e0cb2c0511a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 30/42] fix: entities that a reference transition does not move
 keep their clusters

---
 cxx/gendb.cc | 79 +++++++++++++++++++++++++++++++++++++++++++---------
 cxx/gendb.hh | 19 +++++++++++--
 2 files changed, 82 insertions(+), 16 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 7c7e076..90ea695 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -6,7 +6,9 @@
 #include <algorithm>
 #include <map>
 #include <random>
+#include <set>
 #include <string>
+#include <tuple>
 #include <variant>
 
 #include "distributions/crp.hh"
@@ -328,6 +330,49 @@ std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
   return domain_inds;
 }
 
+// Returns the entities of the data where class_name.ref_field has primary key
+// class_item, apart from those that are reached by way of the reference only.
+std::set<std::tuple<int, std::string, T_item>> GenDB::get_unmoved_entities(
+    const std::map<std::string, std::vector<size_t>>& domain_inds,
+    const std::string& class_name, const std::string& ref_field,
+    const int class_item) const {
+  std::set<std::tuple<int, std::string, T_item>> unmoved;
+  for (const auto& [rel_name, inds] : domain_inds) {
+    const std::vector<std::string>& domains = std::visit(
+        [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
+    const int irm_code = hirm->relation_to_table(rel_name);
+    const auto& ref_indices = relation_reference_indices.at(rel_name);
+    const auto& data_r = std::visit(
+        [&](auto rel) { return rel->get_data_r().at(class_name); },
+        hirm->get_relation(rel_name));
+    if (!data_r.contains(class_item)) {
+      continue;
+    }
+    for (const T_items& items : data_r.at(class_item)) {
+      std::vector<bool> moved(items.size(), false);
+      for (const size_t ind : inds) {
+        if (items[ind] == class_item) {
+          moved[ref_indices.at(ind).at(ref_field)] = true;
+        }
+      }
+      if (std::find(moved.cbegin(), moved.cend(), true) == moved.cend()) {
+        continue;
+      }
+      // Every index has a larger index than those that it refers to.
+      for (int i = items.size() - 1; i >= 0; --i) {
+        if (!moved[i]) {
+          unmoved.insert({irm_code, domains[i], items[i]});
+        } else if (ref_indices.contains(i)) {
+          for (const auto& [unused_field, ref_ind] : ref_indices.at(i)) {
+            moved[ref_ind] = true;
+          }
+        }
+      }
+    }
+  }
+  return unmoved;
+}
+
 // Unincorporates the value of class_name.ref_field where the primary key
 // equals class_item. For singleton references, recursively unincorporates
 // from the reference class as well.
@@ -339,7 +384,8 @@ double GenDB::unincorporate_reference(
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map,
     std::map<std::tuple<int, std::string, T_item>, int>&
-        unincorporated_from_domains) {
+        unincorporated_from_domains,
+    const std::set<std::tuple<int, std::string, T_item>>& unmoved) {
   double logp_relations = 0.;
   std::vector<std::string> rel_names;
   for (const auto& [rel_name, unused_inds] : domain_inds) {
@@ -384,8 +430,8 @@ double GenDB::unincorporate_reference(
     for (int d_ind : inds) {
       int r_ind =
           relation_reference_indices.at(rel_name).at(d_ind).at(ref_field);
-      unincorporate_from_domain_cluster_relation(rel_name, ref_val, r_ind,
-                                                 unincorporated_from_domains);
+      unincorporate_from_domain_cluster_relation(
+          rel_name, ref_val, r_ind, unincorporated_from_domains, unmoved);
     }
   }
   return logp_relations;
@@ -506,7 +552,8 @@ void GenDB::incorporate_reference_relation(
 // unincorporated entities.
 double GenDB::unincorporate_from_domain_cluster_relation(
     const std::string& r, const int item, const int ind,
-    std::map<std::tuple<int, std::string, T_item>, int>& unincorporated) {
+    std::map<std::tuple<int, std::string, T_item>, int>& unincorporated,
+    const std::set<std::tuple<int, std::string, T_item>>& unmoved) {
   double logp_adj = 0.;
   int irm_code = hirm->relation_to_table(r);
   IRM* irm = hirm->irms.at(irm_code);
@@ -517,10 +564,12 @@ double GenDB::unincorporate_from_domain_cluster_relation(
 
   // Return if:
   //   - we have already unincorporated this entity from the IRM domain cluster
-  //   - we shouldn't unincorporate it because it still exists in the data.
+  //   - we shouldn't unincorporate it because it still exists in the data, or
+  //   will exist in it again.
   //   - we can't because it wasn't ever in the data and is therefore not in the
   //   cluster.
   if (unincorporated.contains({irm_code, ref_class, item}) ||
+      unmoved.contains({irm_code, ref_class, item}) ||
       irm->has_observation(ref_class, item) || !domain->items.contains(item)) {
     return logp_adj;
   }
@@ -540,8 +589,8 @@ double GenDB::unincorporate_from_domain_cluster_relation(
       relation_reference_indices.at(r).contains(ind)) {
     for (auto [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
       int ref_item = reference_values.at(ref_class).at({name, item});
-      logp_adj += unincorporate_from_domain_cluster_relation(r, ref_item, r_ind,
-                                                             unincorporated);
+      logp_adj += unincorporate_from_domain_cluster_relation(
+          r, ref_item, r_ind, unincorporated, unmoved);
     }
   }
   return logp_adj;
@@ -641,7 +690,8 @@ double GenDB::unincorporate_singleton(
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains,
     std::map<std::tuple<std::string, std::string, int>, int>&
-        unincorporated_from_entity_crps) {
+        unincorporated_from_entity_crps,
+    const std::set<std::tuple<int, std::string, T_item>>& unmoved) {
   double logp_refclass = 0.;
 
   int ref_val = reference_values.at(class_name).at({ref_field, class_item});
@@ -687,7 +737,7 @@ double GenDB::unincorporate_singleton(
       const size_t num_domains = std::visit(
           [&](auto tr) { return tr.domains.size(); }, hirm->schema.at(rel));
       logp_refclass += unincorporate_from_domain_cluster_relation(
-          rel, item, num_domains - 1, unincorporated_from_domains);
+          rel, item, num_domains - 1, unincorporated_from_domains, unmoved);
     }
   }
   return logp_refclass;
@@ -724,6 +774,8 @@ void GenDB::transition_reference(std::mt19937* prng,
   // value being transitioned.
   std::map<std::string, std::vector<size_t>> domain_inds =
       get_domain_inds(class_name, ref_field);
+  const std::set<std::tuple<int, std::string, T_item>> unmoved =
+      get_unmoved_entities(domain_inds, class_name, ref_field, class_item);
 
   // Unincorporate and compute the logp for the current reference value,
   // accounting for relation cluster logps and IRM domain CRP logps. The Gibbs
@@ -736,7 +788,7 @@ void GenDB::transition_reference(std::mt19937* prng,
       unincorporated_from_domains;  // Stores IRM domain cluster IDs.
   double logp_current = unincorporate_reference(
       domain_inds, class_name, ref_field, class_item, stored_values,
-      unincorporated_from_domains[init_refval]);
+      unincorporated_from_domains[init_refval], unmoved);
 
   std::vector<int> entities(crp_dist.size());
   std::vector<double> logps(crp_dist.size(), 0.);
@@ -772,7 +824,7 @@ void GenDB::transition_reference(std::mt19937* prng,
     unincorporate_singleton(class_name, ref_field, class_item, ref_class,
                             ref_class_relation_stored_values,
                             unincorporated_from_domains[init_refval],
-                            unincorporated_from_entity_crps);
+                            unincorporated_from_entity_crps, unmoved);
   }
 
   // Loop over the candidate reference values and compute the logp of each.
@@ -813,7 +865,8 @@ void GenDB::transition_reference(std::mt19937* prng,
     // (so they can be re-incorporated if this table is chosen).
     logps[i] += unincorporate_reference(domain_inds, class_name, ref_field,
                                         class_item, updated_values_i,
-                                        unincorporated_from_domains[table]);
+                                        unincorporated_from_domains[table],
+                                        unmoved);
 
     // If table is the singleton, unincorporate and store its references from
     // the entity CRPs. Unincorporate and store the items/values corresponding
@@ -822,7 +875,7 @@ void GenDB::transition_reference(std::mt19937* prng,
       unincorporate_singleton(
           class_name, ref_field, class_item, ref_class,
           ref_class_relation_stored_values, unincorporated_from_domains[table],
-          unincorporated_from_entity_crps);
+          unincorporated_from_entity_crps, unmoved);
     }
 
     ++i;
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 4537f03..91f7de3 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -4,7 +4,9 @@
 #pragma once
 #include <map>
 #include <random>
+#include <set>
 #include <string>
+#include <tuple>
 
 #include "distributions/crp.hh"
 #include "hirm.hh"
@@ -79,6 +81,14 @@ class GenDB {
   std::map<std::string, std::vector<size_t>> get_domain_inds(
       const std::string& class_name, const std::string& ref_field);
 
+  // Returns the entities, in the domains of the IRMs, that appear in the data
+  // where class_name refers to ref_field and has primary key value class_item,
+  // and that appear in it whichever entity is referred to.
+  std::set<std::tuple<int, std::string, T_item>> get_unmoved_entities(
+      const std::map<std::string, std::vector<size_t>>& domain_inds,
+      const std::string& class_name, const std::string& ref_field,
+      const int class_item) const;
+
   // Unincorporates all data where class_name refers to ref_field amd has
   // primary key value class_item.
   double unincorporate_reference(
@@ -89,7 +99,8 @@ class GenDB {
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map,
       std::map<std::tuple<int, std::string, T_item>, int>&
-          unincorporated_from_domains);
+          unincorporated_from_domains,
+      const std::set<std::tuple<int, std::string, T_item>>& unmoved = {});
 
   // Unincorporates and stores items/values from a relation.
   template <typename T>
@@ -149,7 +160,8 @@ class GenDB {
   // unincorporated entities.
   double unincorporate_from_domain_cluster_relation(
       const std::string& r, int item, const int ind,
-      std::map<std::tuple<int, std::string, T_item>, int>& unincorporated);
+      std::map<std::tuple<int, std::string, T_item>, int>& unincorporated,
+      const std::set<std::tuple<int, std::string, T_item>>& unmoved = {});
 
   // Unincorporates reference values from their entity clusters and returns the
   // logp of the unincorporated values.
@@ -170,7 +182,8 @@ class GenDB {
       std::map<std::tuple<int, std::string, T_item>, int>&
           unincorporated_from_domains,
       std::map<std::tuple<std::string, std::string, int>, int>&
-          unincorporated_from_entity_crps);
+          unincorporated_from_entity_crps,
+      const std::set<std::tuple<int, std::string, T_item>>& unmoved = {});
 
   // Reincorporates a newly-sampled reference value before returning from the
   // Gibbs kernel.
-- 
2.43.0


From c5ee5a336a7f6aa90aadb6f6bcbac75e696056aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 31/42] fix: ancestors that a reference transition leaves
 without data leave their domain clusters

---
 cxx/gendb.cc | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 90ea695..3929970 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -562,29 +562,28 @@ double GenDB::unincorporate_from_domain_cluster_relation(
   const std::string& ref_class = domains.at(ind);
   Domain* domain = irm->domains.at(ref_class);
 
-  // Return if:
+  // Unincorporate the entity, unless:
   //   - we have already unincorporated this entity from the IRM domain cluster
   //   - we shouldn't unincorporate it because it still exists in the data, or
   //   will exist in it again.
   //   - we can't because it wasn't ever in the data and is therefore not in the
   //   cluster.
-  if (unincorporated.contains({irm_code, ref_class, item}) ||
-      unmoved.contains({irm_code, ref_class, item}) ||
-      irm->has_observation(ref_class, item) || !domain->items.contains(item)) {
-    return logp_adj;
-  }
-
-  CRP& crp = domain->crp;
-  int cluster_id = crp.assignments.at(item);
-  domain->unincorporate(item);
-  if (crp.tables.contains(cluster_id)) {
-    logp_adj += crp.logp(cluster_id);
-  } else {
-    logp_adj += crp.logp_new_table();
+  if (!unincorporated.contains({irm_code, ref_class, item}) &&
+      !unmoved.contains({irm_code, ref_class, item}) &&
+      !irm->has_observation(ref_class, item) && domain->items.contains(item)) {
+    CRP& crp = domain->crp;
+    int cluster_id = crp.assignments.at(item);
+    domain->unincorporate(item);
+    if (crp.tables.contains(cluster_id)) {
+      logp_adj += crp.logp(cluster_id);
+    } else {
+      logp_adj += crp.logp_new_table();
+    }
+    unincorporated[{irm_code, ref_class, item}] = cluster_id;
   }
-  unincorporated[{irm_code, ref_class, item}] = cluster_id;
 
-  // Recursively check and unincorporate the entity's ancestors.
+  // Recursively check and unincorporate the entity's ancestors. Other relations
+  // of the IRM may have the entity without having the same ancestors.
   if (relation_reference_indices.contains(r) &&
       relation_reference_indices.at(r).contains(ind)) {
     for (auto [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
-- 
2.43.0


From 257261cba85e9aad5688f3e3219faa6f7bdbf209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 32/42] fix: DistributionAdapter reads an empty string as zero

---
 cxx/distributions/adapter.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/adapter.hh b/cxx/distributions/adapter.hh
index cb9594f..69461e3 100644
--- a/cxx/distributions/adapter.hh
+++ b/cxx/distributions/adapter.hh
@@ -21,7 +21,7 @@ class DistributionAdapter : public Distribution<std::string> {
   DistributionAdapter(Distribution<S>* dd) : d(dd) {};
 
   S from_string(const std::string& x) const {
-    S s;
+    S s = S();
     std::istringstream(x) >> s;
     return s;
   }
-- 
2.43.0


From dfef635b517c377621760b4a09a73ba1a3413034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 33/42] fix: Python exact Gibbs weights when a domain occurs
 twice in a relation

---
 src/hirm.py | 81 ++++++++++++++++++++++-------------------------------
 1 file changed, 33 insertions(+), 48 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index d719a48..c7b78e8 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -249,63 +249,48 @@ class Relation:
         return logp
 
     # Implementation of exact Gibbs data probabilities.
-    def get_cluster_to_items_list(self, domain, item):
-        """Return mapping from cluster to all items in that cluster
-        that have domain.item in at least one dimension."""
+    def get_cluster_to_items_list(self, domain, item, table):
+        """Return mapping from cluster to all items in that cluster, when
+        domain.item is at table, that have domain.item in at least one
+        dimension."""
         cluster_to_items_list = {}
         for items in self.data_r[domain.name][item]:
-            cluster = self.get_cluster_assignment(items)
+            cluster = self.get_cluster_assignment_gibbs(
+                items, domain, item, table)
             if cluster not in cluster_to_items_list:
                 cluster_to_items_list[cluster] = []
             cluster_to_items_list[cluster].append(items)
         return cluster_to_items_list
-    def logp_gibbs_exact_current(self, items_list):
-        """Return exact proposal proposal probability for current table."""
-        z = self.get_cluster_assignment(items_list[0])
-        cluster = self.clusters[z]
-        logp0 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            # assert z == self.get_cluster_assignment(items)
-            cluster.unincorporate(x)
-        logp1 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            cluster.incorporate(x)
-        assert cluster.logp_score() == logp0
-        return logp0 - logp1
-    def logp_gibbs_exact_variant(self, domain, item, table, items_list):
-        """Return exact proposal proposal probability for non-current table."""
-        z = self.get_cluster_assignment_gibbs(items_list[0], domain, item, table)
-        cluster = self.clusters.get(z, self.aux())
-        logp0 = cluster.logp_score()
-        for items in items_list:
-            # assert z == self.get_cluster_assignment_gibbs(items, domain, item, table)
-            x = self.data[items]
-            cluster.incorporate(x)
-        logp1 = cluster.logp_score()
-        for items in items_list:
-            # TODO: Skip this loop in case of cluster aux.
-            x = self.data[items]
-            cluster.unincorporate(x)
-        assert cluster.logp_score() == logp0
-        return logp1 - logp0
+    def logp_gibbs_exact_table(self, domain, item, table):
+        """Return exact proposal probability for table, given that no data
+        of domain.item is incorporated in the clusters."""
+        logp = 0
+        cluster_to_items_list = self.get_cluster_to_items_list(
+            domain, item, table)
+        for z, items_list in cluster_to_items_list.items():
+            cluster = self.clusters.get(z, self.aux())
+            logp0 = cluster.logp_score()
+            for items in items_list:
+                cluster.incorporate(self.data[items])
+            logp1 = cluster.logp_score()
+            for items in items_list:
+                cluster.unincorporate(self.data[items])
+            logp += logp1 - logp0
+        return logp
     def logp_gibbs_exact(self, domain, item, tables):
         """Return exact proposal probability of domain.item at tables."""
+        # The data of domain.item may come from several clusters and go to
+        # the same one, or the other way around, if domain occurs twice.
         # assert tables crp_dist = domain.tables_weights_gibbs(item)
-        cluster_to_items_list = self.get_cluster_to_items_list(domain, item)
-        table_current = domain.get_cluster_assignment(item)
-        logps = []
-        for table in tables:
-            lp = 0
-            for items_list in cluster_to_items_list.values():
-                if table == table_current:
-                    lp_cluster = self.logp_gibbs_exact_current(items_list)
-                else:
-                    lp_cluster = self.logp_gibbs_exact_variant(
-                        domain, item, table, items_list)
-                lp += lp_cluster
-            logps.append(lp)
+        items_list = list(self.data_r[domain.name][item])
+        for items in items_list:
+            z = self.get_cluster_assignment(items)
+            self.clusters[z].unincorporate(self.data[items])
+        logps = [self.logp_gibbs_exact_table(domain, item, table)
+            for table in tables]
+        for items in items_list:
+            z = self.get_cluster_assignment(items)
+            self.clusters[z].incorporate(self.data[items])
         return logps
 
     def logp(self, items, value):
-- 
2.43.0


From adc366d23586799dd15069269d9a2dc5adfca1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 34/42] fix: Python CRP weight of the first table is its
 concentration

---
 src/hirm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hirm.py b/src/hirm.py
index c7b78e8..8546b45 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -94,7 +94,7 @@ class CRP:
             - gammaln(self.N + self.alpha)
     def tables_weights(self):
         if self.N == 0:
-            return {0: 1}
+            return {0: self.alpha}
         crp_dist = {t : len(self.tables[t]) for t in self.tables}
         crp_dist[max(self.tables) + 1] = self.alpha
         return crp_dist
-- 
2.43.0


From 275822f52066a62917a8f5959a840cf8fa1694bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 35/42] fix: Python CRP without customers keeps its
 concentration

---
 src/hirm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hirm.py b/src/hirm.py
index 8546b45..3b8cc6a 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -107,6 +107,8 @@ class CRP:
             del crp_dist[max(crp_dist)]
         return crp_dist
     def transition_alpha(self):
+        if self.N == 0:
+            return
         grid = log_linspace(1/self.N, self.N+1, 30)
         log_weights = []
         for g in grid:
-- 
2.43.0


From 5f303180fa955dde71faa8f1c9b07868eb5f3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 36/42] fix: Python remove_relation unseats the items only that
 relation has

---
 src/hirm.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index 3b8cc6a..f17fc18 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -137,12 +137,9 @@ class Domain:
             t = self.crp.sample() if table is None else table
             self.crp.incorporate(item, t)
     def unincorporate(self, item):
-        raise NotImplementedError()
-        # assert item in self.items
-        # self.items[item].remove(relation)
-        # if not self.items[item]:
-        #     self.crp.unincorporate(item)
-        #     del self.items[item]
+        assert item in self.items
+        self.items.remove(item)
+        self.crp.unincorporate(item)
     def get_cluster_assignment(self, item):
         assert item in self.items
         return self.crp.assignments[item]
@@ -434,7 +431,12 @@ class IRM:
         domains = {d.name for d in self.relations[r].domains}
         for d in domains:
             self.domain_to_relations[d].discard(r)
-            # TODO: Remove r from self.domains[d].items
+            # Remove the items that only relation r has observations of.
+            domain = self.domains[d]
+            others = [self.relations[s] for s in self.domain_to_relations[d]]
+            for item in self.relations[r].data_r[d]:
+                if not any(s.has_observation(domain, item) for s in others):
+                    domain.unincorporate(item)
             if len(self.domain_to_relations[d]) == 0:
                 del self.domain_to_relations[d]
                 del self.domains[d]
-- 
2.43.0


From ef536034c8b86bc6a47f96f767f5218ea85fce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 37/42] fix: the plotting tools read every schema that the
 programs do

---
 py/hirm_io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index e683f17..91c5e92 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -21,8 +21,13 @@ DomainCluster = collections.namedtuple(
 def load_schema(path):
   """Load the schema from path, and return it as a dict of Relations."""
   relations = {}
-  comment_line_re = re.compile(r'\s*#.*')
-  line_re = re.compile(r'\s*(\w+)\s*~\s*(\w+)\s*(\[[^\]]*\])?\(\s*([^\)]+)\s*\)\s*(#.*)?')
+  comment_line_re = re.compile(r'\s*(#.*)?$')
+  # Parameter values may be quoted, and then contain anything.
+  value_pattern = r'(?:"[^"]*"|\'[^\']*\'|[^"\'\],])*'
+  # Relations with noisy observations start with the name of a base relation.
+  line_re = re.compile(r'\s*(\w+)\s*~\s*(\w+)\s*'
+                       r'(\[' + value_pattern + r'(?:,' + value_pattern + r')*\])?\s*'
+                       r'\((?:\s*\w+\s*;)?\s*([^\)]+?)\s*\)\s*(#.*)?')
   with open(path, 'r') as f:
     for line in f:
       if comment_line_re.match(line):
@@ -35,9 +40,8 @@ def load_schema(path):
       parameters = {}
       if m.group(3):
         param_string = m.group(3)[1:-1]
-        ps = re.split(r'\s*,\s*', param_string)
-        for p in ps:
-          kv = re.split(r'\s*=\s*', p)
+        for p in re.findall(r'(?:^|,)(' + value_pattern + ')', param_string):
+          kv = re.split(r'\s*=\s*', p.strip(), maxsplit=1)
           assert len(kv) == 2
           parameters[kv[0]] = kv[1]
       domains = re.split(r'\s*,\s*', m.group(4))
-- 
2.43.0


From 7dbab7449ae45b808745f7a4c1b47a2b499e5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 38/42] fix: a view's plots show its own relations only

---
 py/visualize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/visualize.py b/py/visualize.py
index 4308909..770c516 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -182,6 +182,8 @@ def collate_observations(obs):
 def html_for_cluster(cluster, schema, obs, clusters):
   """Return the html for visualizing a single cluster."""
   html = ''
+  # The other relations' entities need not be in this cluster.
+  obs = [ob for ob in obs if ob.relation in cluster.relations]
   unary_obs, binary_obs = collate_observations(obs)
   if unary_obs:
     print(f"For irm #{cluster.cluster_id}, building unary matrix based on {len(unary_obs)} observations")
-- 
2.43.0


From 747ee67c45f245aa6f86d4e1a9c003cd8623f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 39/42] fix: plots tell entities of different domains apart

---
 py/visualize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/py/visualize.py b/py/visualize.py
index 770c516..f70e0dc 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -107,7 +107,15 @@ def unary_matrix_plot(schema, cluster, obs, clusters):
   ax.set_yticks(np.arange(num_rows), labels=all_entities, fontsize=fontsize)
 
   # Matrix of data
-  m = make_unary_matrix(obs, all_entities, relations)
+  rows = all_entities
+  if schema:
+    # Entities of different domains may have the same name.
+    domains = sorted(set(dc.domain for dc in cluster.domain_clusters))
+    rows = [(d, e) for d in domains
+            for e in get_all_entities_for_domain(cluster, d)[0]]
+    obs = [ob._replace(items=[(schema[ob.relation].domains[0], ob.items[0])])
+           for ob in obs]
+  m = make_unary_matrix(obs, rows, relations)
   cmap = copy.copy(plt.get_cmap())
   cmap.set_bad(color='white')
   ax.imshow(m, cmap=cmap)
-- 
2.43.0


From d96c257e217453d48eb5e11b7658227c8be16221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:40 +0000
Subject: [PATCH 40/42] fix: Python domains read from a dictionary draw from
 the given generator

---
 src/util_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util_io.py b/src/util_io.py
index f74fe0e..add2bc1 100644
--- a/src/util_io.py
+++ b/src/util_io.py
@@ -130,7 +130,7 @@ def to_dict_Domain(x):
 def from_dict_Domain(d, prng=None):
     x = hirm.Domain(d['name'], prng=prng)
     x.items = set(d['items'])
-    x.crp = from_dict_CRP(d['crp'])
+    x.crp = from_dict_CRP(d['crp'], prng=prng)
     return x
 
 def to_dict_Relation(x):
-- 
2.43.0


From 47c968f4bf48587ab8a5f91c623a34795c70f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:50 +0000
Subject: [PATCH 41/42] fix: load saved HIRM clusters of domains whose names
 are numbers

---
 cxx/util_io.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 397d43e..b720997 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -579,12 +579,14 @@ load_clusters_hirm(const std::string& path) {
 
   std::string line;
   int irmc = 0;
+  bool in_relations = true;  // The relation clusters come before the IRMs.
 
   while (std::getline(fp, line)) {
     std::istringstream stream(line);
     if (line.size() == 0) {
       // Start of new IRM
       irmc = -1;
+      in_relations = false;
       continue;
     }
 
@@ -592,7 +594,7 @@ load_clusters_hirm(const std::string& path) {
     stream >> first;
 
     // Parse a relation cluster.
-    if (isnumeric(first)) {
+    if (in_relations && isnumeric(first)) {
       int table = std::stoi(first);
       std::vector<std::string> items;
       for (std::string item; stream >> item;) {
@@ -604,9 +606,8 @@ load_clusters_hirm(const std::string& path) {
       continue;
     }
 
-    // Parse an irm= line.
-    if (first.rfind("irm=", 0) == 0) {
-      assert(irmc == -1);
+    // Parse an irm= line, the first one of an IRM.
+    if (irmc == -1 && first.rfind("irm=", 0) == 0) {
       assert(first.size() > 4);
       std::string x = first.substr(4);
       irmc = std::stoi(x);
-- 
2.43.0


From ad98f288c9e5bec19abff5bfa0a7bc08eba85961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:50 +0000
Subject: [PATCH 42/42] fix: load saved Python HIRM clusters of domains whose
 names are numbers

---
 src/util_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util_io.py b/src/util_io.py
index add2bc1..54fd558 100644
--- a/src/util_io.py
+++ b/src/util_io.py
@@ -58,10 +58,11 @@ def load_clusters_hirm(path):
     irms = {}
     relations = {}
     current_irm = 0
+    in_relations = True  # The relation clusters come before the IRMs.
     with open(path, 'r') as f:
         for line in f:
             parts = line.strip().split(' ')
-            if parts[0].isnumeric():
+            if in_relations and parts[0].isnumeric():
                 assert 2 <= len(parts)
                 table = int(parts[0])
                 items = tuple(parts[1:])
@@ -70,6 +71,7 @@ def load_clusters_hirm(path):
                 continue
             if len(parts) == 1 and not parts[0]:
                 current_irm = None
+                in_relations = False
                 continue
             if len(parts) == 1 and parts[0].startswith('irm='):
                 assert current_irm is None
-- 
2.43.0

