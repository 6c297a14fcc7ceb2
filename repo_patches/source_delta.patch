From 4decc0febc32fe9120368194794d135411a3f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 01/43] fix: what is split off an untracked resource stays
 untracked

ResTracker::Extract returned before handing its tracked flag to the removed
resource, and ResTracker::Package assigned the flag to itself.  A piece
extracted or packaged from a clone therefore recorded rows in the output
database, and a piece of an untracked product dereferenced a null context.
---
 src/res_tracker.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 2bbe6f8..36a6045 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -42,6 +42,8 @@ void ResTracker::Modify() {
 }
 
 void ResTracker::Extract(ResTracker* removed) {
+  // what is split off an untracked resource (e.g. a clone) is untracked too
+  removed->tracked_ = tracked_;
   if (!tracked_) {
     return;
   }
@@ -56,7 +58,6 @@ void ResTracker::Extract(ResTracker* removed) {
   // after being bumped)
   removed->parent1_ = res_->state_id();
   removed->parent2_ = 0;
-  removed->tracked_ = tracked_;
   removed->Record();
 
   if (res_->quantity() > eps_rsrc()) {
@@ -75,11 +76,14 @@ void ResTracker::Absorb(ResTracker* absorbed) {
 }
 
 void ResTracker::Package(ResTracker* parent) {
+  if (parent != NULL) {
+    // what is split off an untracked resource (e.g. a clone) is untracked too
+    tracked_ = parent->tracked_;
+  }
   if (!tracked_) {
     return;
   }
   parent2_ = 0;
-  tracked_ = tracked_;
   package_name_ = res_->package_name();
 
   if (parent != NULL) {
-- 
2.43.0


From 7f906838e2fe5cf028298099425692c5ae66e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 02/43] fix: refuse a group push that lists the same resource
 twice

ResBuf::Push(vector) only compared against what was already in the buffer, so
a resource listed twice was stored and counted twice.
---
 src/toolkit/res_buf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/res_buf.h b/src/toolkit/res_buf.h
index ac92841..42ab708 100644
--- a/src/toolkit/res_buf.h
+++ b/src/toolkit/res_buf.h
@@ -328,8 +328,10 @@ class ResBuf {
       throw ValueError("Resource pushing breaks capacity limit.");
     }
 
+    std::set<typename T::Ptr> pushed;
     for (int i = 0; i < rss.size(); i++) {
-      if (rs_present_.count(rss.at(i)) == 1) {
+      if (rs_present_.count(rss.at(i)) == 1 ||
+          !pushed.insert(rss.at(i)).second) {
         throw KeyError("Duplicate resource pushing attempted");
       }
     }
-- 
2.43.0


From 8caf00ece2b240074cbe7c9191257c517a665087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 03/43] fix: repackaging a material checks the limits of the
 new package

Material::ChangePackage looked up the package the material was leaving, so a
material could be put in a package it does not fit (and a valid move between
two packages be refused).  It also left no record when packaging was removed.
Product::ChangePackage already does both.
---
 src/material.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 9a80b07..c53f777 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -162,17 +162,18 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
 }
 
 void Material::ChangePackage(std::string new_package_name) {
-  if (ctx_ == NULL) {
+  if (new_package_name == package_name_ || ctx_ == NULL) {
     // no change needed
     return;
   }
   else if (new_package_name == Package::unpackaged_name()) {
     // unpackaged has functionally no restrictions
     package_name_ = new_package_name;
+    tracker_.Package();
     return;
   }
  
-  Package::Ptr p = ctx_->GetPackage(package_name_);
+  Package::Ptr p = ctx_->GetPackage(new_package_name);
   double min = p->fill_min();
   double max = p->fill_max();
   if (qty_ >= min && qty_ <= max) {
-- 
2.43.0


From 043595f91026a3b4e3d6bbbd083edcae4e2055fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:23 +0000
Subject: [PATCH 04/43] fix: an arc that does not use a group capacity is not
 limited by it

---
 src/greedy_solver.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index ebf97e1..021872a 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -117,8 +117,10 @@ double GreedySolver::Capacity(ExchangeNode::Ptr n, const Arc& a, bool min_cap,
     CLOG(cyclus::LEV_DEBUG1) << "    unit capacity: " << u_cap;
     CLOG(cyclus::LEV_DEBUG1) << "         capacity: " << cap;
 
-    // special case for unlimited capacities
-    if (grp_cap == std::numeric_limits<double>::max()) {
+    // special case for unlimited capacities, and for constraints to which this
+    // arc does not contribute (grp_cap / u_cap is NaN or -inf once the group
+    // capacity is used up)
+    if (grp_cap == std::numeric_limits<double>::max() || u_cap == 0) {
       caps.push_back(std::numeric_limits<double>::max());
     } else {
       caps.push_back(cap);
-- 
2.43.0


From 5667be8a5d68983ba113d8421e135698887593ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:29 +0000
Subject: [PATCH 05/43] fix: the linear program never takes more from a bid
 than it offers

---
 src/prog_translator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/prog_translator.cc b/src/prog_translator.cc
index 50d387c..d1212c1 100644
--- a/src/prog_translator.cc
+++ b/src/prog_translator.cc
@@ -164,8 +164,10 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
         CheckPref(a.pref());
         ctx_.obj_coeffs[arc_id] = ExchangeSolver::Cost(a, excl_);
         ctx_.col_lbs[arc_id] = 0;
+        // flow is limited by both what is requested and what is offered
         ctx_.col_ubs[arc_id] = (excl_ && a.exclusive()) ? 1 :
-                               std::min(nodes[i]->qty, inf);
+                               std::min(std::min(nodes[i]->qty,
+                                                 a.vnode()->qty), inf);
       }
     }
   }
-- 
2.43.0


From ee7e069c3b0ae7771c208fcf0181a2f1c596b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:29 +0000
Subject: [PATCH 06/43] fix: the greedy solver offers an exclusive resource to
 one request only

---
 src/greedy_solver.cc | 22 ++++++++++++++++++++++
 src/greedy_solver.h  |  8 ++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index 021872a..4575315 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -65,6 +65,8 @@ double GreedySolver::SolveGraph() {
   obj_ = 0;
   unmatched_ = 0;
   n_qty_.clear();
+  excl_grps_.clear();
+  used_excl_grps_.clear();
 
   Init();
 
@@ -140,6 +142,14 @@ void GreedySolver::GetCaps(ExchangeNodeGroup::Ptr g) {
     n_qty_[g->nodes()[i]] = 0;
   }
   grp_caps_[g.get()] = g->capacities();
+
+  const std::vector< std::vector<ExchangeNode::Ptr> >& excl =
+      g->excl_node_groups();
+  for (int i = 0; i != excl.size(); i++) {
+    for (int j = 0; j != excl[i].size(); j++) {
+      excl_grps_[excl[i][j]] = &excl[i];
+    }
+  }
 }
 
 void GreedySolver::GreedilySatisfySet(RequestGroup::Ptr prs) {
@@ -188,6 +198,14 @@ void GreedySolver::GreedilySatisfySet(RequestGroup::Ptr prs) {
           } else {
             tomatch = excl_val;
           }
+
+          // flow is allowed over only one arc of mutually exclusive nodes
+          if ((excl_grps_.count(u) > 0 &&
+               used_excl_grps_.count(excl_grps_[u]) > 0) ||
+              (excl_grps_.count(v) > 0 &&
+               used_excl_grps_.count(excl_grps_[v]) > 0)) {
+            tomatch = 0;
+          }
         }
 
         if (tomatch > eps()) {
@@ -197,6 +215,10 @@ void GreedySolver::GreedilySatisfySet(RequestGroup::Ptr prs) {
           UpdateCapacity(v, a, tomatch);
           n_qty_[u] += tomatch;
           n_qty_[v] += tomatch;
+          if (excl_grps_.count(u) > 0)
+            used_excl_grps_.insert(excl_grps_[u]);
+          if (excl_grps_.count(v) > 0)
+            used_excl_grps_.insert(excl_grps_[v]);
           graph_->AddMatch(a, tomatch);
 
           match += tomatch;
diff --git a/src/greedy_solver.h b/src/greedy_solver.h
index 767f731..0ea305d 100644
--- a/src/greedy_solver.h
+++ b/src/greedy_solver.h
@@ -1,6 +1,10 @@
 #ifndef CYCLUS_SRC_GREEDY_SOLVER_H_
 #define CYCLUS_SRC_GREEDY_SOLVER_H_
 
+#include <map>
+#include <set>
+#include <vector>
+
 #include <boost/shared_ptr.hpp>
 #include "exchange_graph.h"
 #include "exchange_solver.h"
@@ -150,6 +154,10 @@ class GreedySolver: public ExchangeSolver {
   GreedyPreconditioner* conditioner_;
   std::map<ExchangeNode::Ptr, double> n_qty_;
   std::map<ExchangeNodeGroup*, std::vector<double> > grp_caps_;
+  /// mutually exclusive nodes (e.g., bids of the same exclusive resource), by
+  /// node, and those groups whose only allowed flow has been assigned
+  std::map<ExchangeNode::Ptr, const std::vector<ExchangeNode::Ptr>*> excl_grps_;
+  std::set<const std::vector<ExchangeNode::Ptr>*> used_excl_grps_;
   double obj_;
   double unmatched_;
 };
-- 
2.43.0


From 3ac36ff4e7600add19e253d4b27452c5ee657ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:44 +0000
Subject: [PATCH 07/43] fix: a full order of any mutual request meets the
 shared demand

---
 src/request_portfolio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_portfolio.h b/src/request_portfolio.h
index fbfc42a..6c05c64 100644
--- a/src/request_portfolio.h
+++ b/src/request_portfolio.h
@@ -155,7 +155,7 @@ class RequestPortfolio
     for (int i = 0; i < rs.size(); i++) {
       r = rs[i];
       qty = r->target()->quantity();
-      mass_coeffs_[r] = r->target()->quantity() / avg_qty;
+      mass_coeffs_[r] = (qty > 0) ? avg_qty / qty : 0;
       qty_ -= qty;
     }
     qty_ += avg_qty;
-- 
2.43.0


From e633de9b363734aff3f0b621469d4050e749c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:23 +0000
Subject: [PATCH 08/43] fix: institutions and regions are counted when they
 enter

They were only taken off the count when decommissioned, so that n_prototypes
and n_specs were zero for them while in the simulation and negative after.
---
 src/institution.cc | 1 +
 src/region.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/institution.cc b/src/institution.cc
index ad07f95..9b6af7b 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -37,6 +37,7 @@ void Institution::Build(Agent* parent) {
 }
 
 void Institution::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
diff --git a/src/region.cc b/src/region.cc
index dae74b6..957e6a0 100644
--- a/src/region.cc
+++ b/src/region.cc
@@ -26,6 +26,7 @@ void Region::Build(Agent* parent) {
 }
 
 void Region::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
-- 
2.43.0


From d07c1821e5929acb40c50de0a499495625f34916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:23 +0000
Subject: [PATCH 09/43] fix: a lifetime can be forced to one that has run out,
 or to infinite

The setter that refuses built agents was called again from its own handler.
---
 src/agent.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agent.cc b/src/agent.cc
index b5e8c51..86df05e 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -117,8 +117,8 @@ void Agent::lifetime_force(int n_timesteps) {
     lifetime(n_timesteps);
   }
   catch (ValueError e){
-    if(enter_time_+n_timesteps <= context()->time()){
-      lifetime(context()->time() - enter_time_ + 1);
+    if(n_timesteps != -1 && enter_time_+n_timesteps <= context()->time()){
+      lifetime_ = context()->time() - enter_time_ + 1;
     }
     else{
       lifetime_ = n_timesteps;    
-- 
2.43.0


From 7c9d63f8b2e4198a3d23110cfb99c38401279194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:11 +0000
Subject: [PATCH 10/43] fix: changing the dump count does not lose what is in
 the buffer

The buffered data was deleted unsent and the write position kept, so that
blank data was sent instead, or the new buffer overrun.
---
 src/recorder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/recorder.cc b/src/recorder.cc
index a3e2ad3..77d7987 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -51,6 +51,7 @@ boost::uuids::uuid Recorder::sim_id() {
 }
 
 void Recorder::set_dump_count(unsigned int count) {
+  Flush();  // the buffer is replaced below
   for (int i = 0; i < data_.size(); ++i) {
     delete data_[i];
   }
-- 
2.43.0


From 5f463f6c2759616ce50006dbf800eb953bb73b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:11 +0000
Subject: [PATCH 11/43] fix: a datum's field names given as strings stay valid

The datum kept a pointer into the temporary string it was given.
---
 src/datum.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/datum.cc b/src/datum.cc
index 7b86f37..2e06c6f 100644
--- a/src/datum.cc
+++ b/src/datum.cc
@@ -1,5 +1,8 @@
 #include "datum.h"
 
+#include <set>
+#include <string>
+
 #include <boost/pool/singleton_pool.hpp>
 
 
@@ -27,8 +30,10 @@ Datum* Datum::AddVal(const char* field, boost::spirit::hold_any val,
 
 Datum* Datum::AddVal(std::string field, boost::spirit::hold_any val,
                      std::vector<int>* shape) {
+  // vals_ only points to the name, which must outlive this call
+  static std::set<std::string> names;
   fields_.push_back(field);
-  return AddValBase(field.c_str(), val, shape);
+  return AddValBase(names.insert(field).first->c_str(), val, shape);
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 3e30109d3a3d18a84c0805086723bc4bd0f5d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:38 +0000
Subject: [PATCH 12/43] fix: an even filling works without a minimum fill, and
 nothing fills no package

floor(qty / fill_min) overflows an int when fill_min is zero, so that an even
filling was never used, and an empty resource was refused with a ValueError
about splitting into too many items.
---
 src/package.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 4665d93..f9cf34c 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -44,7 +44,7 @@ void Package::SetDistribution() {
 
 std::vector<double> Package::GetFillMass(double qty) {
   std::vector<double> packages;
-  if ((qty - fill_min_) < -eps_rsrc()) {
+  if (qty <= 0 || (qty - fill_min_) < -eps_rsrc()) {
     // less than one pkg of material available
     return packages;
   }
@@ -58,7 +58,8 @@ std::vector<double> Package::GetFillMass(double qty) {
   if (strategy_ == "first") {
     fill_mass = fill_max_;
   } else if (strategy_ == "equal") {
-    int num_min_fill = std::floor(qty / fill_min_);
+    // infinite, not an integer, if there is no minimum fill
+    double num_min_fill = std::floor(qty / fill_min_);
     int num_max_fill = std::ceil(qty / fill_max_);
     if (num_min_fill >= num_max_fill) {
       // all material can fit in package(s)
-- 
2.43.0


From 60bae8b5f7dc40778dd932d04402cbb183ad6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:38 +0000
Subject: [PATCH 13/43] fix: packaging never asks for more than is left of the
 resource

The fill masses add up to the resource's quantity only up to rounding, so that
the last package of a product could be refused after the others were taken.
---
 src/resource.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/resource.h b/src/resource.h
index 2797d22..4d74b43 100644
--- a/src/resource.h
+++ b/src/resource.h
@@ -1,6 +1,7 @@
 #ifndef CYCLUS_SRC_RESOURCE_H_
 #define CYCLUS_SRC_RESOURCE_H_
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include <boost/shared_ptr.hpp>
@@ -147,7 +148,8 @@ std::vector<typename T::Ptr> Resource::Package(Package::Ptr pkg) {
   }
 
   for (int i = 0; i < packages.size(); ++i) {
-    double pkg_fill = packages[i];
+    // the fills add up to the quantity only up to rounding
+    double pkg_fill = std::min(packages[i], quantity());
     t_pkgd = boost::dynamic_pointer_cast<T>(PackageExtract(pkg_fill, pkg->name()));
     ts_pkgd.push_back(t_pkgd);
   }
-- 
2.43.0


From 8fd8ff05a8465fe995a9099f7d45b3d23ef447c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 14/43] fix: a uniform distribution over an empty range is
 refused

Sampling a uniform real distribution whose minimum is not below its maximum
(such as a package with equal limits and the uniform strategy) never ended,
and an integer one gave numbers outside any range.
---
 src/random_number_generator.cc |  7 +++++++
 src/random_number_generator.h  | 13 +++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/random_number_generator.cc b/src/random_number_generator.cc
index add4136..6e750a9 100644
--- a/src/random_number_generator.cc
+++ b/src/random_number_generator.cc
@@ -28,12 +28,19 @@ namespace cyclus{
     }
     
     int RandomNumberGenerator::random_uniform_int(int low, int high){
+        if (low > high) {
+            throw ValueError("low cannot be greater than high");
+        }
         boost::random::uniform_int_distribution<> dist(low, high);
         boost::random::variate_generator<Generator&, boost::random::uniform_int_distribution<> > rn(gen_, dist);
         return rn();
     }
 
     double RandomNumberGenerator::random_uniform_real(double low, double high){
+        // sampling from an empty range would never end
+        if (!(low < high)) {
+            throw ValueError("low must be less than high");
+        }
         boost::random::uniform_real_distribution<> dist(low, high);
         boost::random::variate_generator<Generator&, boost::random::uniform_real_distribution<> > rn(gen_, dist);
         return rn();
diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9072618..42d5690 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -119,7 +119,12 @@ class UniformDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<UniformDoubleDist> Ptr;
 
-    UniformDoubleDist(double min = 0, double max=1) : dist(min, max) {};
+    UniformDoubleDist(double min = 0, double max=1) : dist(min, max) {
+      // sampling from an empty range would never end
+      if (!(min < max)) {
+        throw ValueError("Min must be less than max for a uniform distribution. Either use FixedDoubleDist or change the min/max.");
+      }
+    };
     virtual double sample() { return dist(RandomNumberGenerator::gen_); }
     virtual double max() { return dist.max(); }
 };
@@ -220,7 +225,11 @@ class UniformIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<UniformIntDist> Ptr;
 
-    UniformIntDist(int min = 0, int max=1) : dist(min, max) {};
+    UniformIntDist(int min = 0, int max=1) : dist(min, max) {
+      if (min > max) {
+        throw ValueError("Min cannot be greater than max for a uniform distribution.");
+      }
+    };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int max() { return dist.max(); }
 };
-- 
2.43.0


From e6f95fecd7b5b9373b99fd3b5511848c1bfef7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 15/43] fix: Poisson and binary distributions keep the
 parameters they are given

The Poisson distributions were made from their own uninitialised mean, and the
binary ones never stored their probability.
---
 src/random_number_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 42d5690..b9c076a 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -157,7 +157,7 @@ class PoissonDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<PoissonDoubleDist> Ptr;
 
-    PoissonDoubleDist(double mean) : dist(mean_) {
+    PoissonDoubleDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -193,7 +193,7 @@ class BinaryDoubleDist : public DoubleDistribution {
   public:
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
@@ -311,7 +311,7 @@ class PoissonIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<PoissonIntDist> Ptr;
 
-    PoissonIntDist(double mean) : dist(mean_) {
+    PoissonIntDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -346,7 +346,7 @@ class BinaryIntDist : public IntDistribution {
   public:
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
-- 
2.43.0


From 3d98267ab383aeae2f406a05437680d3ca552ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:53 +0000
Subject: [PATCH 16/43] fix: transport units without a minimum or maximum fill
 do not crash

Without a minimum (the default) the even and hybrid strategies divided by zero,
and without a maximum (the default) the number of units overflowed, so that
nothing or more than available was shipped. With a maximum of zero the hybrid
strategy did not end.
---
 src/package.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index f9cf34c..fe2b61a 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -137,7 +137,7 @@ TransportUnit::Ptr& TransportUnit::unrestricted() {
 }
 
 int TransportUnit::GetTransportUnitFill(int qty) {
-  if (qty < fill_min_) {
+  if (qty < fill_min_ || qty <= 0 || fill_max_ == 0) {
     // less than one TransportUnit of material available
     return 0;
   }
@@ -146,15 +146,14 @@ int TransportUnit::GetTransportUnitFill(int qty) {
     return fill_max_;
   } else if (strategy_ == "equal" || strategy_ == "hybrid") {
     // int division automatically rounds down. don't need floor in min, and 
-    // get ceil by hand instead 
-    int num_at_min_fill = qty / fill_min_;
-    int num_at_max_fill = (qty + fill_max_ - 1) / fill_max_;
+    // get ceil by hand instead. No minimum means at least one package each
+    int num_at_min_fill = qty / std::max(fill_min_, 1);
+    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ != 0);
 
     if (num_at_min_fill >= num_at_max_fill) {
       // all material *might* fit transport units. However, this is more
       // challenging than packages because transport units are discrete. 
-      double dbl_fill_mass = (double)qty / (double)num_at_max_fill;
-      return std::floor(dbl_fill_mass);
+      return qty / num_at_max_fill;
     }
     // some material will remain unrestricted, fill up as many transport
     // units as possible. Or, perfect fill is possible but not with integer
@@ -184,6 +183,9 @@ int TransportUnit::MaxShippablePackages(int pkgs) {
   } else if (strategy_ == "hybrid") {
     while ((pkgs > 0) && (pkgs >= fill_min_)) {
       TU_fill = GetTransportUnitFill(pkgs);
+      if (TU_fill == 0) {
+        break;
+      }
       shippable += TU_fill;
       pkgs -= TU_fill;
     }
-- 
2.43.0


From 14633aaf887575ede51470e93f866c0df0566602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:55 +0000
Subject: [PATCH 17/43] fix: a buy policy without an inventory tracker tracks
 its own buffer

It initialised a tracker through an uninitialised pointer.
---
 src/toolkit/matl_buy_policy.cc | 4 +++-
 src/toolkit/matl_buy_policy.h  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 746642a..e0b39fe 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -60,8 +60,10 @@ void MatlBuyPolicy::set_manager(Agent* m) {
 
 void MatlBuyPolicy::set_total_inv_tracker(TotalInvTracker* t) {
   if (t == NULL){
+    // track the policy's own buffer, which is limited by its capacity anyway
     std::vector<ResBuf<Material>*> bufs = {buf_};
-    buf_tracker_->Init(bufs, buf_->capacity());
+    own_tracker_.Init(bufs);
+    buf_tracker_ = &own_tracker_;
   }
   else if (!t->buf_in_tracker(buf_)) {
     std::stringstream ss;
diff --git a/src/toolkit/matl_buy_policy.h b/src/toolkit/matl_buy_policy.h
index 82e742d..590477f 100644
--- a/src/toolkit/matl_buy_policy.h
+++ b/src/toolkit/matl_buy_policy.h
@@ -254,6 +254,7 @@ class MatlBuyPolicy : public Trader {
 
   ResBuf<Material>* buf_;
   TotalInvTracker* buf_tracker_;
+  TotalInvTracker own_tracker_;  // used unless a tracker is given
   std::string name_, inv_policy;
   double fill_to_, req_at_, quantize_, throughput_, cumulative_cap_,
     cycle_total_inv_;
-- 
2.43.0


From f4d27d3b32fbf03d2659aae98be2c802871a2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:55 +0000
Subject: [PATCH 18/43] fix: resetting a buy policy forgets its active and
 dormant periods

A policy that had always been active stayed so when it was reset and given
dormant periods.
---
 src/toolkit/matl_buy_policy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index e0b39fe..5050e4c 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -41,6 +41,8 @@ MatlBuyPolicy& MatlBuyPolicy::ResetBehavior() {
   req_at_ = std::numeric_limits<double>::max();
   cumulative_cap_ = -1;
   cycle_total_inv_ = 0;
+  next_active_end_ = 0;
+  next_dormant_end_ = 0;
   active_dist_ = NULL;
   dormant_dist_ = NULL;
   size_dist_ = NULL;
-- 
2.43.0


From 9ec0bd0284213b01385efbfbc9690c418a6d86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:40 +0000
Subject: [PATCH 19/43] fix: binomial distributions report their probability,
 not its integer part

---
 src/random_number_generator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index b9c076a..8b9bb2e 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -275,7 +275,7 @@ class BinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int trials() { return trials_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// NegativeBinomialIntDist takes the number of successes desired and a 
@@ -300,7 +300,7 @@ class NegativeBinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// Poisson distribution requires a mean 
-- 
2.43.0


From 8021483fd103716132399a290715c8ca59a7922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 20/43] fix: a quantum too small for its package is refused,
 not read past an empty filling

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 62188d9..b1dd8dd 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -52,7 +52,7 @@ void MatlSellPolicy::set_package(std::string x) {
     if (quantize_ > 0 && pkg->name() != Package::unpackaged_name()) {
       if (pkg->strategy() == "first" || pkg->strategy() == "equal") {
         std::vector<double> fill = pkg->GetFillMass(quantize_);
-        if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
+        if (fill.size() != 1 || std::fmod(fill.front(), quantize_) > 0) {
           ss << "Quantize " << quantize_ 
              << " is not fully packagable based on fill min/max values (" 
              << pkg->fill_min() << ", " << pkg->fill_max() << ")";
-- 
2.43.0


From 4f47934aff14382cb0de48758102607af989ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 21/43] fix: a sell policy that ignores compositions sends the
 one it offered

---
 src/toolkit/matl_sell_policy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index b1dd8dd..b8ea20a 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -284,7 +284,8 @@ void MatlSellPolicy::GetMatlTrades(
         trade_mat = mat;
       }
 
-      if (ignore_comp_ && compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
+      // transmuting bumps resource ids and records, so only do it if needed
+      if (ignore_comp_ && it->request->target()->comp() != trade_mat->comp()) {
         trade_mat->Transmute(it->request->target()->comp());
       }
       responses.push_back(std::make_pair(*it, trade_mat));
-- 
2.43.0


From 2cfcc2f8387ac9cc7d73ed97fba71687f571e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:25 +0000
Subject: [PATCH 22/43] fix: transport limits also hold for what needs no
 packaging

---
 src/toolkit/matl_sell_policy.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index b8ea20a..11944d5 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -282,6 +282,7 @@ void MatlSellPolicy::GetMatlTrades(
 
       } else { // no packaging needed
         trade_mat = mat;
+        shippable_pkgs -= 1;
       }
 
       // transmuting bumps resource ids and records, so only do it if needed
-- 
2.43.0


From 93d11abda9ef58505874544ec0a75a7f4ac5f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 23/43] fix: restored resources keep their packages

---
 src/sim_init.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 9e80110..f8f9529 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -601,11 +601,12 @@ Material::Ptr SimInit::LoadMaterial(Context* ctx, QueryableBackend* b, int state
   qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string pkg = qr.GetVal<std::string>("PackageName");
 
   // create the composition and material
   Composition::Ptr comp = LoadComposition(b, stateid);
   Agent* dummy = new Dummy(ctx);
-  Material::Ptr mat = Material::Create(dummy, qty, comp);
+  Material::Ptr mat = Material::Create(dummy, qty, comp, pkg);
   mat->prev_decay_time_ = prev_decay;
   ctx->DelAgent(dummy);
 
@@ -635,6 +636,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   QueryResult qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string pkg = qr.GetVal<std::string>("PackageName");
 
   // get special Product internal state
   conds.clear();
@@ -646,7 +648,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   Product::qualids_[quality] = stateid;
 
   Agent* dummy = new Dummy(ctx);
-  Product::Ptr r = Product::Create(dummy, qty, quality);
+  Product::Ptr r = Product::Create(dummy, qty, quality, pkg);
   ctx->DelAgent(dummy);
   return r;
 }
-- 
2.43.0


From d34b2d634784c69ab97906a9f59929ee704ed0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 24/43] fix: restarting does not wait forever for a parent that
 has left

---
 src/sim_init.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index f8f9529..c54f35c 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -435,7 +435,9 @@ void SimInit::LoadInitialAgents() {
     Agent* m = it->second;
     int parentid = parentmap[id];
 
-    if (parentid == -1) {  // root agent
+    if (parentid == -1 ||
+        (agents_.count(parentid) == 0 && unbuilt.count(parentid) == 0)) {
+      // root agent, or one whose parent has left the simulation
       m->Connect(NULL);
       agents_[id] = m;
       ++it;
-- 
2.43.0


From 36370dc20706d924e27b1185d4b48949bea6759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 25/43] fix: a restart repeats the builds of its first step and
 only those ordered before it

---
 src/sim_init.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index c54f35c..83c3ddb 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -488,7 +488,10 @@ void SimInit::LoadInventories() {
 
 void SimInit::LoadBuildSched() {
   std::vector<Cond> conds;
-  conds.push_back(Cond("BuildTime", ">", t_));
+  // builds at t_ itself happen after the snapshot, and whatever was scheduled
+  // from t_ on (initially: after the agents were built) is scheduled again
+  conds.push_back(Cond("BuildTime", ">=", t_));
+  conds.push_back(Cond("SchedTime", "<", std::max(t_, 1)));
   QueryResult qr;
   try {
     qr = b_->Query("BuildSchedule", &conds);
-- 
2.43.0


From ed9125a19cabe78635f3d0d8bf1fbbcc9612ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 26/43] fix: a restart repeats only decommissions of agents
 that are there, ordered before it

---
 src/sim_init.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 83c3ddb..c2bae4d 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -1,5 +1,7 @@
 #include "sim_init.h"
 
+#include <algorithm>
+
 #include "greedy_preconditioner.h"
 #include "greedy_solver.h"
 #include "platform.h"
@@ -508,6 +510,7 @@ void SimInit::LoadBuildSched() {
 void SimInit::LoadDecomSched() {
   std::vector<Cond> conds;
   conds.push_back(Cond("DecomTime", ">=", t_));
+  conds.push_back(Cond("SchedTime", "<", std::max(t_, 1)));
   QueryResult qr;
   try {
     qr = b_->Query("DecomSchedule", &conds);
@@ -516,7 +519,9 @@ void SimInit::LoadDecomSched() {
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
     int agentid = qr.GetVal<int>("AgentId", i);
-    ctx_->SchedDecom(agents_[agentid], t);
+    if (agents_.count(agentid) > 0) {  // not if rescheduled and gone already
+      ctx_->SchedDecom(agents_[agentid], t);
+    }
   }
 }
 
-- 
2.43.0


From 9bbca228210b2504d8c0ece44690a0694a88c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:28 +0000
Subject: [PATCH 27/43] fix: a restored simulation uses the tolerances it was
 run with

---
 src/context.cc  | 8 ++++++++
 src/sim_init.cc | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/context.cc b/src/context.cc
index b6795bf..1479868 100644
--- a/src/context.cc
+++ b/src/context.cc
@@ -26,6 +26,8 @@ SimInfo::SimInfo()
       y0(0),
       m0(0),
       dt(kDefaultTimeStepDur),
+      eps(cy_eps),
+      eps_rsrc(cy_eps_rsrc),
       decay("manual"),
       branch_time(-1),
       explicit_inventory(false),
@@ -40,6 +42,8 @@ SimInfo::SimInfo(int dur, int y0, int m0, std::string handle)
       y0(y0),
       m0(m0),
       dt(kDefaultTimeStepDur),
+      eps(cy_eps),
+      eps_rsrc(cy_eps_rsrc),
       decay("manual"),
       branch_time(-1),
       handle(handle),
@@ -55,6 +59,8 @@ SimInfo::SimInfo(int dur, int y0, int m0, std::string handle, std::string d)
       y0(y0),
       m0(m0),
       dt(kDefaultTimeStepDur),
+      eps(cy_eps),
+      eps_rsrc(cy_eps_rsrc),
       decay(d),
       branch_time(-1),
       handle(handle),
@@ -72,6 +78,8 @@ SimInfo::SimInfo(int dur, boost::uuids::uuid parent_sim,
       y0(-1),
       m0(-1),
       dt(kDefaultTimeStepDur),
+      eps(cy_eps),
+      eps_rsrc(cy_eps_rsrc),
       decay("manual"),
       parent_sim(parent_sim),
       parent_type(parent_type),
diff --git a/src/sim_init.cc b/src/sim_init.cc
index c2bae4d..7232641 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -168,8 +168,8 @@ void SimInit::LoadInfo() {
   si_.dt = qr.GetVal<int>("DurationSecs");
 
   qr = b_->Query("Epsilon", NULL);
-  si_.eps = qr.GetVal<double>("GenericEpsilon");
-  si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
+  cy_eps = si_.eps = qr.GetVal<double>("GenericEpsilon");
+  cy_eps_rsrc = si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
 
   qr = b_->Query("InfoExplicitInv", NULL);
   si_.explicit_inventory = qr.GetVal<bool>("RecordInventory");
-- 
2.43.0


From 18d01e8c1e2a4a545043384ea590e8c9268e1b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:06 +0000
Subject: [PATCH 28/43] fix: the combined mass fraction of nuclides is defined
 for empty materials

---
 src/toolkit/mat_query.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toolkit/mat_query.cc b/src/toolkit/mat_query.cc
index df7cc78..987cc24 100644
--- a/src/toolkit/mat_query.cc
+++ b/src/toolkit/mat_query.cc
@@ -27,12 +27,12 @@ double MatQuery::mass_frac(Nuc nuc) {
 }
 
 double MatQuery::mass_frac(std::set<Nuc> nucs) {
-  double m_tot = 0;
+  double frac_tot = 0;
   std::set<Nuc>::iterator it ;
   for (it = nucs.begin(); it != nucs.end(); ++it) {
-    m_tot += mass(*it);
+    frac_tot += mass_frac(*it);
   }
-  return m_tot/qty();
+  return frac_tot;
 }
 
 double MatQuery::atom_frac(Nuc nuc) {
-- 
2.43.0


From a69049e8b70bb71fc2f2f096f11bdda9a02a5726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:10 +0000
Subject: [PATCH 29/43] fix: a database query with an empty list of conditions
 returns all rows

---
 src/sqlite_back.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index fff1b0c..1fb1a20 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -106,7 +106,7 @@ QueryResult SqliteBack::Query(std::string table, std::vector<Cond>* conds) {
 
   std::stringstream sql;
   sql << "SELECT * FROM " << table;
-  if (conds != NULL) {
+  if (conds != NULL && !conds->empty()) {
     sql << " WHERE ";
     for (int i = 0; i < conds->size(); ++i) {
       if (i > 0) {
-- 
2.43.0


From aaa39ad3e418e10850f6b45e310a8179985aa66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:10 +0000
Subject: [PATCH 30/43] fix: a datum that cannot be stored does not keep later
 data out of the database

---
 src/sqlite_back.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index 1fb1a20..8254e22 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -81,9 +81,9 @@ void SqliteBack::Notify(DatumList data) {
       }
       WriteDatum(*it);
     }
-  } catch (ValueError err) {
+  } catch (...) {
     db_.Execute("END TRANSACTION;");
-    throw ValueError(err.what());
+    throw;
   }
   db_.Execute("END TRANSACTION;");
   Flush();
-- 
2.43.0


From b442b32f211825e3d864367ad2964ba6b7a53057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:10 +0000
Subject: [PATCH 31/43] fix: printing an agent's family ends

---
 src/agent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index 86df05e..4dbc9c4 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -211,7 +211,7 @@ std::vector<std::string> Agent::GetTreePrintOuts(Agent* m) {
   ss << m->prototype() << std::endl;
   ret.push_back(ss.str());
   std::set<Agent*>::iterator it;
-  for (it = children_.begin(); it != children_.end(); ++it) {
+  for (it = m->children_.begin(); it != m->children_.end(); ++it) {
     Agent* child = *it;
     std::vector<std::string> outs = GetTreePrintOuts(child);
     for (int j = 0; j < outs.size(); j++) {
-- 
2.43.0


From 926ba403a1dc8ef59c7b919b2a2e3b2940a1b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:30 +0000
Subject: [PATCH 32/43] fix: the record of a transmuted material carries its
 new decay time

---
 src/material.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/material.cc b/src/material.cc
index c53f777..1a085c1 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -126,7 +126,6 @@ void Material::Absorb(Material::Ptr mat) {
 
 void Material::Transmute(Composition::Ptr c) {
   comp_ = c;
-  tracker_.Modify();
 
   // Presumably the user has chosen the new composition to be accurate for
   // the current simulation time.  The next call to decay should not include
@@ -138,6 +137,9 @@ void Material::Transmute(Composition::Ptr c) {
   if (ctx_ != NULL && ctx_->time() > prev_decay_time_) {
     prev_decay_time_ = ctx_->time();
   }
+
+  // this must come last because the decay time is recorded too
+  tracker_.Modify();
 }
 
 Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name) {
-- 
2.43.0


From d1abd0f3d4be049105ea41e800d0a42b47b81fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:30 +0000
Subject: [PATCH 33/43] fix: a shape annotation shorter than its type is
 completed

---
 cli/cycpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index e4c2b69..3ab79b5 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -864,7 +864,7 @@ class StateAccumulator(object):
         # Shape is too short.
         elif len(current_shape) < expected_shape_length:
             diff = expected_shape_length - len(current_shape)
-            new_shape = current_shape.extend([-1] * diff)
+            new_shape = list(current_shape) + [-1] * diff
         # Shape is too long- we throw an error.
         elif len(current_shape) > expected_shape_length:
             err_string = ("Shape array for type {t} is not formatted correctly."
-- 
2.43.0


From 14ad4a07aaa3ea12bab94e59347631b4b0943a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 34/43] fix: sinks request no more than their inventory has
 room for

---
 agents/k_facility.cc | 4 ++--
 agents/sink.cc       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/agents/k_facility.cc b/agents/k_facility.cc
index 77a0e1a..488c3f1 100644
--- a/agents/k_facility.cc
+++ b/agents/k_facility.cc
@@ -148,7 +148,7 @@ KFacility::GetMatlRequests() {
 
   std::set<RequestPortfolio<Material>::Ptr> ports;
   RequestPortfolio<Material>::Ptr port(new RequestPortfolio<Material>());
-  double amt = RequestAmt();
+  double amt = std::min(RequestAmt(), inventory.space());
   Material::Ptr mat = cyclus::NewBlankMaterial(amt);
 
   if (amt > cyclus::eps()) {
@@ -173,7 +173,7 @@ KFacility::GetProductRequests() {
 
   std::set<RequestPortfolio<Product>::Ptr> ports;
   RequestPortfolio<Product>::Ptr port(new RequestPortfolio<Product>());
-  double amt = RequestAmt();
+  double amt = std::min(RequestAmt(), inventory.space());
 
   if (amt > cyclus::eps()) {
     CapacityConstraint<Product> cc(amt);
diff --git a/agents/sink.cc b/agents/sink.cc
index 31534cd..dcceddf 100644
--- a/agents/sink.cc
+++ b/agents/sink.cc
@@ -20,7 +20,7 @@ Sink::GetMatlRequests() {
 
   std::set<RequestPortfolio<Material>::Ptr> ports;
   RequestPortfolio<Material>::Ptr port(new RequestPortfolio<Material>());
-  double amt = Capacity();
+  double amt = std::min(Capacity(), inventory.space());
 
   Material::Ptr mat = cyclus::NewBlankMaterial(amt);
   if (!recipe_name.empty()) {
@@ -53,7 +53,7 @@ Sink::GetProductRequests() {
   std::set<RequestPortfolio<Product>::Ptr> ports;
   RequestPortfolio<Product>::Ptr
       port(new RequestPortfolio<Product>());
-  double amt = Capacity();
+  double amt = std::min(Capacity(), inventory.space());
 
   if (amt > cyclus::eps()) {
     CapacityConstraint<Product> cc(amt);
-- 
2.43.0


From bab680e3d3dec8ee794cf0112986fad6eb0e7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:45 +0000
Subject: [PATCH 35/43] fix: sources without capacity make no bids

---
 agents/k_facility.cc | 3 ++-
 agents/source.cc     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/agents/k_facility.cc b/agents/k_facility.cc
index 488c3f1..776b82c 100644
--- a/agents/k_facility.cc
+++ b/agents/k_facility.cc
@@ -88,7 +88,8 @@ KFacility::GetMatlBids(
 
   std::set<BidPortfolio<Material>::Ptr> ports;
 
-  if (commod_requests.count(out_commod) > 0) {
+  if (out_capacity > cyclus::eps() &&
+      commod_requests.count(out_commod) > 0) {
     BidPortfolio<Material>::Ptr port(new BidPortfolio<Material>());
 
     std::vector<Request<Material>*>& requests = commod_requests.at(
diff --git a/agents/source.cc b/agents/source.cc
index e94f893..27833cd 100644
--- a/agents/source.cc
+++ b/agents/source.cc
@@ -51,7 +51,7 @@ Source::GetMatlBids(
 
   std::set<BidPortfolio<Material>::Ptr> ports;
 
-  if (commod_requests.count(commod) > 0) {
+  if (capacity > cyclus::eps() && commod_requests.count(commod) > 0) {
     BidPortfolio<Material>::Ptr port(new BidPortfolio<Material>());
 
     std::vector<Request<Material>*>& requests = commod_requests[commod];
-- 
2.43.0


From 3fa90ff646300f3435f6da7f24949206999e8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 36/43] fix: a transport unit without fill_max has no upper
 limit

The default, the largest double, does not fit the int it was converted to, so
input files that left fill_max out (as the schema allows) were refused.
---
 src/xml_file_loader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 3c4d6c4..95a171f 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -351,8 +351,8 @@ void XMLFileLoader::LoadTransportUnits() {
     std::string name = cyclus::OptionalQuery<std::string>(qe, "name", "default");
     CLOG(LEV_DEBUG3) << "loading transport unit: " << name;
     
-    double fill_min = cyclus::OptionalQuery<double>(qe, "fill_min", eps());
-    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<double>::max());
+    int fill_min = cyclus::OptionalQuery<int>(qe, "fill_min", 0);
+    int fill_max = cyclus::OptionalQuery<int>(qe, "fill_max", std::numeric_limits<int>::max());
     
     std::string strategy = cyclus::OptionalQuery<std::string>(qe, "strategy", "first");
 
-- 
2.43.0


From 683213b843d341de39399b44b2035e2823f37014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 37/43] fix: use the recorded commodity priorities

The loader records them as SolutionPriority; the column read back was never
written, and the error was taken for a missing table, so that solution_priority
had no effect.
---
 src/sim_init.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 7232641..56b44d5 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -249,7 +249,7 @@ void* SimInit::LoadPreconditioner(std::string name) {
     QueryResult qr = b_->Query("CommodPriority", NULL);
     for (int i = 0; i < qr.rows.size(); ++i) {
       std::string commod = qr.GetVal<string>("Commodity", i);
-      double order = qr.GetVal<double>("SolutionOrder", i);
+      double order = qr.GetVal<double>("SolutionPriority", i);
       commod_order[commod] = order;
     }
   } catch (std::exception err) {
-- 
2.43.0


From 4b9958a49c5f6b2564160e8c2a01939448d9c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 38/43] fix: refuse a flat input file whose agents lack their
 parent

Looking for the parent went on forever.
---
 src/xml_flat_loader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xml_flat_loader.cc b/src/xml_flat_loader.cc
index 7e3319b..90c9e7c 100644
--- a/src/xml_flat_loader.cc
+++ b/src/xml_flat_loader.cc
@@ -99,6 +99,7 @@ void XMLFlatLoader::LoadInitialAgents() {
   // build agents starting at roots (no parent) down.
   std::map<std::string, Agent*> built;  // map<agent_name, agent_ptr>
   std::set<std::string>::iterator it = agents.begin();
+  size_t nleft = agents.size();  // before the current pass over the agents
   while (agents.size() > 0) {
     std::string name = *it;
     std::string proto = protos[name];
@@ -115,6 +116,11 @@ void XMLFlatLoader::LoadInitialAgents() {
       ++it;
     }
     if (it == agents.end()) {
+      if (agents.size() == nleft && nleft > 0) {
+        throw ValueError("agent '" + *agents.begin() + "' has no parent '" +
+                         parents[*agents.begin()] + "' in the input file");
+      }
+      nleft = agents.size();
       it = agents.begin();
     }
   }
-- 
2.43.0


From 97618bac8672486408f4b0166314ace767c4c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 39/43] fix: round the number of facilities to build

---
 src/toolkit/building_manager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/building_manager.cc b/src/toolkit/building_manager.cc
index ea61643..44a9b97 100644
--- a/src/toolkit/building_manager.cc
+++ b/src/toolkit/building_manager.cc
@@ -1,5 +1,7 @@
 #include "building_manager.h"
 
+#include <cmath>
+
 #include "prog_translator.h"
 #include "CoinPackedVector.hpp"
 
@@ -81,7 +83,8 @@ void BuildingManager::Solve_(OsiCbcSolverInterface& iface,
   CommodityProducer* p;
   Builder* b;
   for (int i = 0; i != nvar; i++) {
-    n = static_cast<int>(sol[i]);
+    // solutions are integral only to within the solver's tolerance
+    n = static_cast<int>(std::floor(sol[i] + 0.5));
     if (n > 0) {
       p = idx_to_p[i];
       b = p_to_b[p];
-- 
2.43.0


From 781cc932259dc44d02409b3e144178b69cf1a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:34 +0000
Subject: [PATCH 40/43] fix: keep all digits of the numbers of a JSON input

A JSON input file is converted to XML before it is read. Its real numbers, and
its whole numbers beyond the range of an int, were written with the stream's
default of six significant digits, so that 1234567.125 became 1.23457e+06.
---
 src/toolkit/infile_converters.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index ac49b78..0b46e97 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -1,3 +1,5 @@
+#include <iomanip>
+#include <limits>
 #include <sstream>
 
 #include <boost/shared_ptr.hpp>
@@ -68,7 +70,8 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
   } else if (node.isUInt()) {
     ss << node.asUInt64();
   } else if (node.isDouble()) {
-    ss << node.asDouble();
+    ss << std::setprecision(std::numeric_limits<double>::max_digits10)
+       << node.asDouble();
   } else if (node.isBool()) {
     ss << node.asBool();
   } else {
-- 
2.43.0


From d17933102985fd39e71c3a785b342e764fd94165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:14 +0000
Subject: [PATCH 41/43] fix: write well-formed XML for empty elements among
 repeated ones

The start tag of an array's first element is written before the array is
visited and the end tag of its last one afterwards, so writing <name/> for a
null element left tags unbalanced. A null element is now written like any other
one, with no text, and each end is indented as its own element needs it.
---
 src/toolkit/infile_converters.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 0b46e97..79ac85e 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -14,12 +14,18 @@
 namespace cyclus {
 namespace toolkit {
 
+// Whether a value is written on lines of its own; isObject() also holds for null
+static bool IndentsChild(const Json::Value& node) {
+  return !node.isNull() && (node.isObject() || node.isArray());
+}
+
 void AddJsonToXml(Json::Value& node, std::stringstream& ss,
                   std::string parent_name, std::string indent) {
   using std::string;
   using Json::Value;
-  if (node.isObject()) {
-    bool indent_child;
+  if (node.isNull()) {
+    return;
+  } else if (node.isObject()) {
     string name;
     string newindent = indent + "  ";
     Value::Members members = node.getMemberNames();
@@ -29,14 +35,18 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
         ss << indent << "<" << name << "/>\n";
         continue;
       }
-      indent_child = node[name].isObject();
-      if (!indent_child && node[name].isArray())
-        indent_child = node[name][0].isObject() || node[name][0].isArray();
+      bool indent_first = IndentsChild(node[name]);
+      bool indent_last = indent_first;
+      if (node[name].isArray()) {
+        int nchildren = node[name].size();
+        indent_first = nchildren > 0 && IndentsChild(node[name][0]);
+        indent_last = nchildren > 0 && IndentsChild(node[name][nchildren - 1]);
+      }
       ss << indent << "<" << name << ">";
-      if (indent_child)
+      if (indent_first)
         ss << "\n";
       AddJsonToXml(node[name], ss, name, newindent);
-      if (indent_child)
+      if (indent_last)
         ss << indent;
       ss << "</" << name << ">\n";
     }
@@ -46,11 +56,7 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
     indent = indent.substr(0, indent.size() - 2);
     int nchildren = node.size();
     for (int n = 0; n < nchildren; ++n) {
-      if (node[n].isNull()) {
-        ss << indent << "<" << parent_name << "/>\n";
-        continue;
-      }
-      indent_child = node[n].isObject() || node[n].isArray();
+      indent_child = IndentsChild(node[n]);
       if (n > 0) {
         ss << indent << "<" << parent_name << ">";
         if (indent_child)
-- 
2.43.0


From 60d8b442324d4791f6a6f02b1e3fe569b5513e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:14 +0000
Subject: [PATCH 42/43] fix: escape the text of a JSON input

Text with "&" or "<" in a JSON input file was copied into the XML it is
converted to as it is, which made the XML malformed or something else.
---
 src/toolkit/infile_converters.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 79ac85e..dafae91 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -14,6 +14,20 @@
 namespace cyclus {
 namespace toolkit {
 
+// Escapes the characters of a text that have a meaning in XML
+static std::string XmlEscape(const std::string& s) {
+  std::string escaped;
+  for (std::string::size_type i = 0; i < s.size(); ++i) {
+    switch (s[i]) {
+      case '&': escaped += "&amp;"; break;
+      case '<': escaped += "&lt;"; break;
+      case '>': escaped += "&gt;"; break;
+      default: escaped += s[i];
+    }
+  }
+  return escaped;
+}
+
 // Whether a value is written on lines of its own; isObject() also holds for null
 static bool IndentsChild(const Json::Value& node) {
   return !node.isNull() && (node.isObject() || node.isArray());
@@ -70,7 +84,7 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
       }
     }
   } else if (node.isString()) {
-    ss << node.asString();
+    ss << XmlEscape(node.asString());
   } else if (node.isInt()) {
     ss << node.asInt64();
   } else if (node.isUInt()) {
-- 
2.43.0


From 783b8868abe0ec4bdf2cb94a1b05aec0b3787f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:36 +0000
Subject: [PATCH 43/43] fix: keep an empty first element among repeated ones

isArray() also holds for null, so appending to an element that was empty
replaced it in the JSON that an XML input is converted to.
---
 src/toolkit/infile_converters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index dafae91..5cc4918 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -128,7 +128,7 @@ void JsonInsertOrAppend(Json::Value& node, std::string key, Json::Value& val) {
   using std::string;
   using Json::Value;
   if (node.isMember(key)) {
-    if (node[key].isArray()) {
+    if (!node[key].isNull() && node[key].isArray()) {
       node[key].append(val);
     } else {
       Value keynode = node[key];
-- 
2.43.0

