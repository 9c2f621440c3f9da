From 429ace7bd60a830ca2190fba961ffb309f9f713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 01/26] fix: Factor2Poses3d inverts the observation when the
 nodes are in reverse order

The result of inv() was discarded, so a factor whose origin node has the larger
id constrained the two poses with the wrong transformation.
---
 src/FGraph/factors/factor2Poses3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..9deb4d3 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -45,14 +45,14 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * SE3(observation).T() );
     }
 }
 
@@ -72,14 +72,14 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * SE3(observation).T() );
     }
 }
 
-- 
2.43.0


From 8dae9c059de798e01c85c6a5e9f87de0c4f17b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 02/26] fix: Factor2Poses2d keeps the meaning of the
 observation in reverse node order

With the origin id larger than the target id the observation was negated, which
is not the inverse motion as soon as the target is rotated.
---
 src/FGraph/factors/factor2Poses2d.cpp      | 30 +++++++++++++---------
 src/FGraph/mrob/factors/factor2Poses2d.hpp |  1 +
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..825ac1f 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -31,7 +31,7 @@ using namespace mrob;
 Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &nodeOrigin,
                                std::shared_ptr<Node> &nodeTarget, const Mat3 &obsInf, bool updateNodeTarget,
                                Factor::robustFactorType robust_type):
-        Factor(3, 6, robust_type), obs_(observation), W_(obsInf)
+        Factor(3, 6, robust_type), obs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -40,12 +40,10 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     else
     {
-        // we reverse the order and simply invert the observation function (not always true)
+        // we reverse the order of the nodes, the observation is still from origin to target
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
-
-        // reverse observations to account for this
-        obs_ = -observation;
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
@@ -57,8 +55,8 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
 
 void Factor2Poses2d::evaluate_residuals() {
     // Evaluation of h(i,j)
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(reversedNodeOrder_ ? 1 : 0).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(reversedNodeOrder_ ? 0 : 1).get()->get_state();
 
     // r = h(i,j) - obs = Ri^T * (xj- xi) - obs .  From "i", i.e, at its reference frame, we observe xj
     Mat31 h = nodeTarget - nodeOrigin;
@@ -74,8 +72,8 @@ void Factor2Poses2d::evaluate_residuals() {
 
 void Factor2Poses2d::evaluate_jacobians()
 {
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(reversedNodeOrder_ ? 1 : 0).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(reversedNodeOrder_ ? 0 : 1).get()->get_state();
 
     // r =  Ri^T * (xj- xi) - obs
     // J1 = [-R1^T,    J2 = [R1^T 0]
@@ -84,9 +82,17 @@ void Factor2Poses2d::evaluate_jacobians()
            s1 = std::sin(nodeOrigin(2)),
            dx = nodeTarget(0) - nodeOrigin(0),
            dy = nodeTarget(1) - nodeOrigin(1);
-    J_ <<   -c1, -s1, -s1*dx + c1*dy,     c1, s1, 0,
-             s1, -c1, -c1*dx - s1*dy,    -s1, c1, 0,
-              0,   0,    -1,              0,  0, 1;
+    Mat3 JOrigin, JTarget;
+    JOrigin << -c1, -s1, -s1*dx + c1*dy,
+                s1, -c1, -c1*dx - s1*dy,
+                 0,   0,    -1;
+    JTarget <<  c1, s1, 0,
+               -s1, c1, 0,
+                 0,  0, 1;
+    if (!reversedNodeOrder_)
+        J_ << JOrigin, JTarget;
+    else
+        J_ << JTarget, JOrigin;
 }
 
 void Factor2Poses2d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index f0b043b..aaa228f 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -74,6 +74,7 @@ namespace mrob{
         Mat31 obs_, r_; //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
         Mat<3,6> J_;//Joint Jacobian
+        bool reversedNodeOrder_;//neighbour nodes are stored as [target, origin], ordered by id
 
     public:
         EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From 301678f68dbdfb968427ad9c6ed141c256013329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 03/26] fix: Factor2Poses2d initialises the target from the
 observation in the origin frame

updateNodeTarget added the observation without rotating it, so the new factor
did not agree with its own observation for any rotated origin.
---
 src/FGraph/factors/factor2Poses2d.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 825ac1f..efc64b4 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -47,7 +47,12 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // the observation is expressed at the origin frame, as in evaluate_residuals()
+        Mat31 x = nodeOrigin->get_state(), dx = observation;
+        double c1 = std::cos(x(2)), s1 = std::sin(x(2));
+        dx(0) = c1 * observation(0) - s1 * observation(1);
+        dx(1) = s1 * observation(0) + c1 * observation(1);
+        dx += x - nodeTarget->get_state();
         nodeTarget->update(dx);
     }
 }
-- 
2.43.0


From 3b0b4f35db0eb9d58e61c5bbf1759b0c993dbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 04/26] fix: Factor2Poses2dOdom Jacobian accounts for the first
 rotation of the observation

---
 src/FGraph/factors/factor2Poses2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index efc64b4..2b11e79 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -145,7 +145,8 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // the translation is applied after the first rotation, see get_odometry_prediction()
+    auto s = -obs_(1) * std::sin(node1(2) + obs_(0)), c = obs_(1) * std::cos(node1(2) + obs_(0));
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From e32662bd90bb142470d6516dda598abfb7bd9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:52 +0000
Subject: [PATCH 05/26] fix: FGraphSolve Levenberg-Marquardt honours the lambda
 given to solve()

---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..53ea4d6 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -145,7 +145,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
     // LM trust region as described in Bertsekas (p.105)
 
     // 0) parameter initialization
-    lambda_ = 1e-5;
+    //    lambda_ is set by solve()
     // sigma reference to the fidelity of the model at the proposed solution \in [0,1]
     matData_t sigma1(0.25), sigma2(0.8);// 0 < sigma1 < sigma2 < 1
     matData_t beta1(2.0), beta2(0.25); // lambda updates multiplier values, beta1 > 1 > beta2 >0
-- 
2.43.0


From 9ffe8e62a667c0a16ccef94002a1e54115085e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:52 +0000
Subject: [PATCH 06/26] fix: robust weights are evaluated at u = sqrt(r'Wr)

chi2 is 0.5 r'Wr, so its square root is not the distance the kernels expect.
---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 53ea4d6..5a5b4aa 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -319,7 +319,7 @@ void FGraphSolve::build_adjacency()
             {
                 uint_t iRow = indFactorsMatrix[i] + l;
                 uint_t iCol = indFactorsMatrix[i] + k;
-                robust_weight = f->evaluate_robust_weight(std::sqrt(f->get_chi2()));
+                robust_weight = f->evaluate_robust_weight(std::sqrt(2.0*f->get_chi2()));// u = sqrt(r'Wr)
                 W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);
             }
         }
-- 
2.43.0


From 43c4840c23d31e77861d172457aaca97372b7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:52 +0000
Subject: [PATCH 07/26] fix: the Ransac robust kernel sets its weight

It kept the initial zero, which discarded every factor.
---
 src/FGraph/factor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FGraph/factor.cpp b/src/FGraph/factor.cpp
index 06182c2..ddc2623 100644
--- a/src/FGraph/factor.cpp
+++ b/src/FGraph/factor.cpp
@@ -63,6 +63,9 @@ matData_t Factor::evaluate_robust_weight(matData_t u, matData_t params)
             robust_weight_ = 1.0/params/params;
             break;
         case RANSAC:
+            // p(u) = 1/2u^2    if u < d
+            //        d
+            robust_weight_ = (u < 1.0) ? 1.0 : 0.0;
             break;
         case QUADRATIC:
         default:
-- 
2.43.0


From 493532d04e73d08353f34224ca6989fcd14a8ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 08/26] fix: FGraphSolveDense counts the gradient of each
 factor once

It was accumulated once per neighbour node, so factors of two nodes contributed
twice their gradient and Newton steps overshot.
---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..ff3e851 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -125,9 +129,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From 3ef095f4f7fa65009dee6720f7df722fc18fc8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 09/26] fix: FGraphSolveDense does not estimate anchor nodes

Anchors are not part of the state dimension: their blocks were written out of
bounds of the Hessian and gradient, and their states were updated.
---
 src/FGraph/factor_graph_solve_dense.cpp | 28 +++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index ff3e851..e9bcf6f 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -76,24 +76,24 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
     // 3) calculate the indexes for the nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
     // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -132,6 +132,8 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
+                if (it == indNodeId.end())
+                    continue;// anchor nodes are not part of the state
                 auto index = std::distance(indNodeId.begin(), it);
                 // Only the current block row is filled in (corresponding to the n-node). We could use a triang view...
                 hessian_.block(indNodesMatrix[n], indNodesMatrix[index],N,M) +=
@@ -146,25 +148,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From d728a98b8e605639fb0781bd245bc1afef1a2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 10/26] fix: isSO3 and isSE3 reject matrices which are not
 rigid transformations

isSO3 accepted any matrix of unit determinant and isSE3 any last row whose
signed differences to (0,0,0,1) add up to zero or less.
---
 src/geometry/SE3.cpp | 2 +-
 src/geometry/SO3.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9073980..65fc6fd 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).sum() > 1e-6 )
+    if ( (T.row(3)-one).norm() > 1e-6 )
         return false;
     return true;
 }
diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..47067c1 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -284,6 +284,9 @@ bool mrob::isSO3(Mat3 R)
         return false;
     if ( fabs(det - 1.0) > 1e-6)
         return false;
+    // a unit determinant is not enough, columns must be orthonormal
+    if ( (R.transpose()*R - Mat3::Identity()).norm() > 1e-6)
+        return false;
     return true;
 
 }
-- 
2.43.0


From 4e1090fe4ab129a396b1e696f5b159c04e3535af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 11/26] fix: wrap_angle ends for angles of any magnitude

Subtracting 2 pi from an angle above 1e17 or an infinite one does not change it
and the loop never ended.
---
 src/FGraph/node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..e89ae64 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -22,6 +22,7 @@
  */
 
 #include "mrob/node.hpp"
+#include <cmath>
 
 using namespace mrob;
 
@@ -61,6 +62,9 @@ double mrob::wrap_angle(double angle)
 {
     double pi2 = 2 * M_PI;
 
+    // brings very large angles close to the interval, the loops below would not end for them
+    if (std::fabs(angle) > 1e3) angle = std::remainder(angle, pi2);
+
     while (angle < -M_PI) angle += pi2;
     while (angle >= M_PI) angle -= pi2;
 
-- 
2.43.0


From 7dbc17d0125081db7cef449d215c9978abe8d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 12/26] fix: NodePlane4d keeps a unit normal when its state is
 set

---
 src/FGraph/mrob/factors/nodePlane4d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/mrob/factors/nodePlane4d.hpp b/src/FGraph/mrob/factors/nodePlane4d.hpp
index 0ccadc1..b8977d3 100644
--- a/src/FGraph/mrob/factors/nodePlane4d.hpp
+++ b/src/FGraph/mrob/factors/nodePlane4d.hpp
@@ -52,8 +52,8 @@ class NodePlane4d : public Node
      */
     virtual void update(const Eigen::Ref<const MatX1> &dx) override;
     virtual void update_from_auxiliary(const Eigen::Ref<const MatX1> &dx) override;
-    virtual void set_state(const Eigen::Ref<const MatX> &x) override {state_ = x;};
-    virtual void set_auxiliary_state(const Eigen::Ref<const MatX> &x) override {auxiliaryState_ = x;};
+    virtual void set_state(const Eigen::Ref<const MatX> &x) override {state_ = x; state_.head(3).normalize();};
+    virtual void set_auxiliary_state(const Eigen::Ref<const MatX> &x) override {auxiliaryState_ = x; auxiliaryState_.head(3).normalize();};
     virtual const Eigen::Ref<const MatX> get_state() const override {return state_;};
     virtual const Eigen::Ref<const MatX> get_auxiliary_state() const override {return auxiliaryState_;};
     virtual void print() const override;
-- 
2.43.0


From 95c4c641d7bd169159542cbddd4a52be786f3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 13/26] fix: Factor1Pose1Landmark3d initialises the landmark
 when asked to

---
 src/FGraph/factors/factor1Pose1Landmark3d.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor1Pose1Landmark3d.cpp b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
index 05a1f6f..223aea5 100644
--- a/src/FGraph/factors/factor1Pose1Landmark3d.cpp
+++ b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
@@ -50,7 +50,10 @@ Factor1Pose1Landmark3d::Factor1Pose1Landmark3d(const Mat31 &observation, std::sh
 
     if (initializeLandmark)
     {
-        // TODO Initialize landmark value to whatever observation we see from current pose
+        // Initialize landmark value to whatever observation we see from current pose
+        Mat4 Tx = nodePose->get_state();
+        Mat31 land = SE3(Tx).transform(obs_);
+        nodeLandmark->set_state(land);
     }
 }
 
-- 
2.43.0


From 109f2cf6a37fb681c9e0dcb935cb7ecc8bde3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 14/26] fix: FGraph lookups with an unknown id throw instead of
 reading out of bounds

The ids come straight from the Python bindings, where the assertions are
compiled out.
---
 src/FGraph/factor_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 99b882e..1adcccf 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -91,14 +91,14 @@ std::shared_ptr<Node>& FGraph::get_node(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < nodes_.size() && "FGraph::get_node: incorrect key");
-    return nodes_[key];// XXX test key  again
+    return nodes_.at(key);
 }
 
 std::shared_ptr<Factor>& FGraph::get_factor(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < factors_.size() && "FGraph::get_node: incorrect key");
-    return factors_[key];
+    return factors_.at(key);
 }
 
 
-- 
2.43.0


From b5e2500ae44eebf994050e84bcc51a0d585a4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 15/26] fix: isSO3 and isSE3 reject NaN matrices

---
 src/geometry/SE3.cpp | 2 +-
 src/geometry/SO3.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 65fc6fd..9966e41 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).norm() > 1e-6 )
+    if ( !((T.row(3)-one).norm() <= 1e-6) )
         return false;
     return true;
 }
diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 47067c1..301b586 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -285,7 +285,8 @@ bool mrob::isSO3(Mat3 R)
     if ( fabs(det - 1.0) > 1e-6)
         return false;
     // a unit determinant is not enough, columns must be orthonormal
-    if ( (R.transpose()*R - Mat3::Identity()).norm() > 1e-6)
+    // (written such that NaN is rejected)
+    if ( !((R.transpose()*R - Mat3::Identity()).norm() <= 1e-6))
         return false;
     return true;
 
-- 
2.43.0


From fec8576a773f49d68f7a73f3418edb4650b88537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 16/26] fix: Plane accounts for points added after the first
 estimation

The moment matrices S are calculated once, so later points were ignored by the
estimation of the plane and by its error.
---
 src/PCRegistration/plane.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..30d3117 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -104,6 +104,13 @@ void Plane::push_back_point(Mat31 &point, uint_t t)
         //allPlanePoints_[t].push_back(homogeneousPoint);
         allPlanePoints_[t].push_back(point);
         ++numberPoints_;
+        // S might have been calculated already, then it has to account for the new point
+        if (!matrixS_.empty())
+        {
+            Mat41 pHomog;
+            pHomog << point , 1.0;
+            matrixS_[t] += pHomog * pHomog.transpose();
+        }
     }
 }
 
-- 
2.43.0


From dc0ca4f82b099742c39e1be877d7481ccf2615aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 17/26] fix: Plane incremental estimation stores the updated Q
 and error

A second incremental estimation at the same time subtracted the outdated Q and
accumulated the points twice; get_error() kept the previous error.
---
 src/PCRegistration/plane.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 30d3117..d0af60e 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -155,11 +155,13 @@ double Plane::estimate_plane()
 double Plane::estimate_plane_incrementally(uint_t t)
 {
     accumulatedQ_ -= matrixQ_[t];
-    accumulatedQ_ +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    matrixQ_[t].noalias() = trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ +=  matrixQ_[t];
     //std::cout << "new acc Q " << accumulatedQ_ << std::endl;
     Eigen::SelfAdjointEigenSolver<Mat4> eigs(accumulatedQ_);
     planeEstimation_ = eigs.eigenvectors().col(0);
-    return eigs.eigenvalues()(0);
+    lambda_ = eigs.eigenvalues()(0);
+    return lambda_;
 }
 
 double Plane::get_error_incremental(uint_t t) const
-- 
2.43.0


From 735924ffdfe249305a9ce257429e75722ac79786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 18/26] fix: Plane::clear_points keeps the lists for every time
 and resets the counts

It removed the lists themselves, which later accesses read out of bounds.
---
 src/PCRegistration/plane.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index d0af60e..f9e625e 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -123,7 +123,11 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    // one list per time stamp is kept, only the points are removed
+    for (auto &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
+    matrixS_.clear();
 }
 
 
-- 
2.43.0


From 2df3fbc4e5d50f8677dc039e15f19e6d65ac2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 19/26] fix: plane initialisation only uses planes seen from
 both poses

Planes not observed at the first pose shifted the correspondences of all the
following planes, and fewer than three planes ended in NaN poses.
---
 src/PCRegistration/plane_registration.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 552285a..8ddc35d 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -258,8 +258,11 @@ uint_t PlaneRegistration::solve_initialize()
     for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
     {
         it->second->calculate_all_matrices_S();
+        // one element per plane, only used if observed from the first pose
         if (it->second->get_number_points(0) > 0 )
             Y_points_all.push_back(it->second->get_mean_point(0));
+        else
+            Y_points_all.push_back(Mat31::Zero());
     }
 
     uint_t t = 0;
@@ -277,7 +280,7 @@ uint_t PlaneRegistration::solve_initialize()
         uint_t cont =0;
         for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
         {
-            if (it->second->get_number_points(t) > 0 )
+            if (it->second->get_number_points(t) > 0 && it->second->get_number_points(0) > 0)
             {
                 X_points.push_back(it->second->get_mean_point(t));
                 Y_points.push_back(Y_points_all[cont]);
@@ -285,6 +288,8 @@ uint_t PlaneRegistration::solve_initialize()
             }
             cont++;
         }
+        if (number_points < 3)
+            return 0;
         // Create the matrices X,Y
         MatX X(number_points,3), Y(number_points,3);
         for (uint_t i = 0; i < number_points; ++i)
-- 
2.43.0


From d4945e25d7c4d7ee41f7409fa914374b15ea23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 20/26] fix: PlaneRegistration::print_evaluate sizes its
 matrices by the planes added

---
 src/PCRegistration/plane_registration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 8ddc35d..dc0e5fc 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -421,8 +421,8 @@ std::vector<double> PlaneRegistration::print_evaluate()
     result[5] = initial_error_/k;
     result[6] = get_current_error()/k; //TODO this does not work for GN (but yes to GN ini...)
 
-    MatX allPlanes(numberPlanes_,4);
-    MatX allNormals(numberPlanes_,3);
+    MatX allPlanes(planes_.size(),4);
+    MatX allNormals(planes_.size(),3);
     uint_t i = 0;
 
 
-- 
2.43.0


From c369490300dc6f5bbf6247e09896c97047b0becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 21/26] fix: Arun registration only refuses collinear point
 clouds

Any two equal singular values, e.g. of a cube or of a cloud of a few millimetres,
were taken as degenerate and refused.
---
 src/PCRegistration/arun.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..2dc2a5a 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -42,7 +42,7 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
      *  2) calculate dispersion from centroids qx = x_i - cx
      *  3) calculate matrix H = sum qx_i * qy_i^T
      *  4) svd decomposition: H = U*D*V'
-     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
+     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are zero
      *  5) Calculate the rotation solution R = V*U'
      *      5.5) check for correct solution (det = +1) or reflection (det = -1)
      *      step 5.5 is actually unnecessary IF applying Umeyama technique
@@ -75,17 +75,10 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
+    // 4.5) look for co-linear solutions, that is only 1 of the 3 (ordered) singular values is not zero,
+    //      relative to the size of the point cloud
+    if ( !(SVD.singularValues()(1) > 1e-10 * SVD.singularValues()(0)) )
+        return 0; //they are co-linear, there exist infinite transformations
 
 
     // 5) Calculate the rotation solution R = V*U'
-- 
2.43.0


From aacdd37c263cceab873d2d7a457b8230551b23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:08 +0000
Subject: [PATCH 22/26] fix: SO3 logarithm when two largest diagonal elements
 are equal

For rotations of a quarter turn or more about axes such as (1,1,0) no element was
strictly the largest, the third and vanishing row was taken and the logarithm was
zero or about a wrong axis.
---
 src/geometry/SO3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 301b586..5f9c73c 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -189,14 +189,14 @@ Mat3 SO3::ln(double *ro) const
         Mat31 w;
         double d = std::cos(o);
 
-        if( R_(0,0) > R_(1,1) && R_(0,0) > R_(2,2) )
+        if( R_(0,0) >= R_(1,1) && R_(0,0) >= R_(2,2) )
         {
             // For stability, we average the two elements since it is almost symetric
             w << R_(0,0) - d,
                  0.5 * ( R_(0,1) + R_(1,0)),
                  0.5 * ( R_(0,2) + R_(2,0));
         }
-        else if( R_(1,1) > R_(0,0) && R_(1,1) > R_(2,2) )
+        else if( R_(1,1) >= R_(0,0) && R_(1,1) >= R_(2,2) )
         {
             w << 0.5 * ( R_(1,0) + R_(0,1)),
                  R_(1,1) - d,
-- 
2.43.0


From 08927be9074bf8ef331b77e17bd13dba03e5cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:55 +0000
Subject: [PATCH 23/26] fix: SO3 logarithm keeps tiny rotations whose trace
 rounds above 3

---
 src/geometry/SO3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 5f9c73c..a03fd17 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -139,9 +139,10 @@ Mat3 SO3::ln(double *ro) const
         // 1) o (angle) is NaN because trace was exactly 1 plus a small round off, so acos is not defined
         double d1;
         // Special case tr =1  and theta -> 0
+        // the skew-symmetric part still holds the (tiny) rotation
         if ( std::isnan(o) )
         {
-            d1 = 0.0;
+            d1 = 0.5;
             o = 0.0;
         }
         // 2) incorrect x/sin when approaching 0. The other problematic point o = pi is handled below
-- 
2.43.0


From 1116655546546efc645fe087ad6741b0e6a74f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 24/26] fix: fourth order compounding uses the correct cross
 term of the rotation-translation block

---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..b69a777 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From ba6561dd756196fc2941b40fb1d15a78f9565410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 25/26] fix: plane Hessian counts the first order term once

---
 src/PCRegistration/plane.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index f9e625e..1bb7b21 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -298,7 +298,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
     Mat4 ddQ, &Q = matrixQ_[t];
 
     // H = pi' * dd Q * pi, where dd Q = Bij + Bij' and
-    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * dQ (previous gradient)
+    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * Q * Gj'
     // Upper triangular matrix
     for (uint_t i =0 ; i< 6 ; ++i)
     {
@@ -308,7 +308,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
             ddQ = lieGenerativeMatrices_[i]*lieGenerativeMatrices_[j] + lieGenerativeMatrices_[j]*lieGenerativeMatrices_[i];
             //compound operator *= as in a*=b (this multiplies on the right: a*=b is equivalent to a = a*b)
             ddQ *= 0.5 * Q;
-            ddQ += lieGenerativeMatrices_[i] * gradQ_[j];
+            ddQ += lieGenerativeMatrices_[i] * Q * lieGenerativeMatrices_[j].transpose();
             ddQ += ddQ.transpose().eval();
             hessian(i,j) = planeEstimation_.dot(ddQ*planeEstimation_);
         }
-- 
2.43.0


From f6e7b0dc1bb136f4b9ff277c61a02ec1877a6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 26/26] fix: damped plane registration undoes a rejected step
 to the trajectory it started from

---
 src/PCRegistration/mrob/plane_registration.hpp |  2 +-
 src/PCRegistration/plane_registration.cpp      | 12 ++----------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/PCRegistration/mrob/plane_registration.hpp b/src/PCRegistration/mrob/plane_registration.hpp
index 73ded3a..662ec31 100644
--- a/src/PCRegistration/mrob/plane_registration.hpp
+++ b/src/PCRegistration/mrob/plane_registration.hpp
@@ -183,7 +183,7 @@ class PlaneRegistration: public OptimizerDense{
     uint_t time_{};
     std::unordered_map<uint_t, std::shared_ptr<Plane>> planes_;
     std::shared_ptr<std::vector<SE3>> trajectory_;
-    SE3 bookept_trajectory_;//last pose is stored/bookept
+    std::vector<SE3> bookept_trajectory_;//all poses are stored/bookept, they need not be an interpolation (see INITIALIZE)
     double tau_ {};//variable for weighting the number of poses in traj
     uint_t solveIters_ {};
 
diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index dc0e5fc..445b5fb 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -522,20 +522,12 @@ void PlaneRegistration::update_state()
 
 void PlaneRegistration::bookkeep_state()
 {
-    bookept_trajectory_ = trajectory_->back();
+    bookept_trajectory_ = *trajectory_;
 }
 
 void PlaneRegistration::update_state_from_bookkeep()
 {
-    trajectory_->back() = bookept_trajectory_;
-    Mat61 xiFinal = bookept_trajectory_.ln_vee();
-    double  tau = 1.0 / (double)(numberPoses_-1);
-    Mat61 dxi;
-    for (uint_t t = 1 ; t < numberPoses_-1; ++t)
-    {
-        dxi = tau * t * xiFinal;
-        trajectory_->at(t) = SE3(dxi);
-    }
+    *trajectory_ = bookept_trajectory_;
     calculate_error();// planes get recalculated, which is a requisite for later
     //(this class construction, in general grad should be self-contained...)
 }
-- 
2.43.0

