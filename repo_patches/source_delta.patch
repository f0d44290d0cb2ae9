From 29726ea106a3a61fa5cf99a07caa949b6cb044d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:02 +0000
Subject: [PATCH 01/24] fix: cross term of the fourth-order covariance
 compounding

The rotation-translation block of B = E[x1^ x2 x2' x1^'] needs the
rotation-translation (not the translation-rotation) covariance of the first
pose; the result was wrong whenever that block is not symmetric.
---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..b69a777 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From ff4d834bd80360fb7b418d139a3caf4a78d1d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 02/24] fix: isSO3 also requires orthonormal rows

A determinant of one is shared by sheared or unequally stretched matrices,
which were accepted as rotations.
---
 src/geometry/SO3.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..6242373 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -284,6 +284,9 @@ bool mrob::isSO3(Mat3 R)
         return false;
     if ( fabs(det - 1.0) > 1e-6)
         return false;
+    // unit determinant is not enough, rows have to be orthonormal as well
+    if ( !((R * R.transpose() - Mat3::Identity()).norm() <= 1e-6) )
+        return false;
     return true;
 
 }
-- 
2.43.0


From 1c215c3b432599b9b172e2680d439dfbf643c190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 03/24] fix: isSE3 checks every entry of the last row

The signed deviations were added up, so negative or cancelling ones passed.
---
 src/geometry/SE3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9073980..9966e41 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).sum() > 1e-6 )
+    if ( !((T.row(3)-one).norm() <= 1e-6) )
         return false;
     return true;
 }
-- 
2.43.0


From 5efdc55c773c58ca352f6cfa64e5857bca063610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 04/24] fix: Factor2Poses3d inverts the observation when its
 nodes are swapped

The inverse was computed and discarded. The target is initialised from the
observation as given, origin to target.
---
 src/FGraph/factors/factor2Poses3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..31a3eae 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -45,14 +45,14 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation );
     }
 }
 
@@ -72,14 +72,14 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation.T() );
     }
 }
 
-- 
2.43.0


From 34d964f1d66e87339f2026b79f089559bc2d4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 05/24] fix: Factor2Poses2d composes poses when swapping nodes
 or initialising the target

Negating the components does not invert a relative pose, and adding them does
not place the target where a rotated origin observes it.
---
 src/FGraph/factors/factor2Poses2d.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..ebbfb21 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -44,12 +44,23 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
 
-        // reverse observations to account for this
-        obs_ = -observation;
+        // reverse observations to account for this: (R, t)^-1 = (R^T, -R^T t)
+        double c1 = std::cos(observation(2)),
+               s1 = std::sin(observation(2));
+        obs_ << -c1*observation(0) - s1*observation(1),
+                 s1*observation(0) - c1*observation(1),
+                -observation(2);
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // the observation is expressed at the origin frame
+        Mat31 x = nodeOrigin->get_state();
+        double c1 = std::cos(x(2)),
+               s1 = std::sin(x(2));
+        x(0) += c1*observation(0) - s1*observation(1);
+        x(1) += s1*observation(0) + c1*observation(1);
+        x(2) += observation(2);
+        Mat31 dx = x - nodeTarget->get_state();
         nodeTarget->update(dx);
     }
 }
-- 
2.43.0


From cee8aea37958287225d5d908449593c234fff679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 06/24] fix: odometry Jacobian is taken at the heading after
 the first rotation

---
 src/FGraph/factors/factor2Poses2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index ebbfb21..2ab5b39 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -145,7 +145,8 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // the translation is applied after the first rotation
+    auto s = -obs_(1) * std::sin(node1(2) + obs_(0)), c = obs_(1) * std::cos(node1(2) + obs_(0));
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From bd616c29b8ae7b03b1b5fa20c539e9bd65cf00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 07/24] fix: RANSAC robust weight is one for inliers and zero
 otherwise

It was never assigned, so every measurement with this kernel had weight zero.
---
 src/FGraph/factor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FGraph/factor.cpp b/src/FGraph/factor.cpp
index 06182c2..192f446 100644
--- a/src/FGraph/factor.cpp
+++ b/src/FGraph/factor.cpp
@@ -63,6 +63,9 @@ matData_t Factor::evaluate_robust_weight(matData_t u, matData_t params)
             robust_weight_ = 1.0/params/params;
             break;
         case RANSAC:
+            // p(u) = 1/2u^2    if u < d
+            //        d
+            robust_weight_ = u < 1.0 ? 1.0 : 0.0;
             break;
         case QUADRATIC:
         default:
-- 
2.43.0


From 58465c78c61d4e86f985affa6c79d2485f734539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:14 +0000
Subject: [PATCH 08/24] fix: Levenberg-Marquardt starts at the damping given to
 solve()

---
 src/FGraph/factor_graph_solve.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..9bc3a0b 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -144,8 +144,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
 
     // LM trust region as described in Bertsekas (p.105)
 
-    // 0) parameter initialization
-    lambda_ = 1e-5;
+    // 0) parameter initialization, lambda_ is already set by solve()
     // sigma reference to the fidelity of the model at the proposed solution \in [0,1]
     matData_t sigma1(0.25), sigma2(0.8);// 0 < sigma1 < sigma2 < 1
     matData_t beta1(2.0), beta2(0.25); // lambda updates multiplier values, beta1 > 1 > beta2 >0
-- 
2.43.0


From 160d17bdc2e233f5b9c841f75f39c264723a69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:14 +0000
Subject: [PATCH 09/24] fix: get_node and get_factor reject unknown ids in
 release builds

---
 src/FGraph/factor_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 99b882e..a263e66 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -91,14 +91,14 @@ std::shared_ptr<Node>& FGraph::get_node(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < nodes_.size() && "FGraph::get_node: incorrect key");
-    return nodes_[key];// XXX test key  again
+    return nodes_.at(key);// throws std::out_of_range also in release
 }
 
 std::shared_ptr<Factor>& FGraph::get_factor(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < factors_.size() && "FGraph::get_node: incorrect key");
-    return factors_[key];
+    return factors_.at(key);// throws std::out_of_range also in release
 }
 
 
-- 
2.43.0


From 34df298c7e22b76a1e91179edd8a23fdcad29a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:40 +0000
Subject: [PATCH 10/24] fix: dense graph gradient counts each measurement once
 per variable

It was added once per neighbour of the measurement, so measurements between
two variables had twice their gradient.
---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..ad76ad3 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r, once per factor
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -125,9 +129,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From 2318b146beef77815351b1446b8546b9dc37f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:40 +0000
Subject: [PATCH 11/24] fix: dense graph solver leaves anchored variables out

The system was sized for the free variables but filled, applied and restored
over all of them, writing outside of it as soon as one was anchored.
---
 src/FGraph/factor_graph_solve_dense.cpp | 30 +++++++++++++------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index ad76ad3..75b7d68 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -76,24 +76,24 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
     // 3) calculate the indexes for the nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
-    // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
+    // 4) create Hessian and gradient, by traversing all active nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -132,6 +132,8 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
+                if (it == indNodeId.end())
+                    continue;// anchor nodes are constant, they have no block
                 auto index = std::distance(indNodeId.begin(), it);
                 // Only the current block row is filled in (corresponding to the n-node). We could use a triang view...
                 hessian_.block(indNodesMatrix[n], indNodesMatrix[index],N,M) +=
@@ -146,25 +148,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From ff1053012f254b01b22c1f070921afbb82193507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 12/24] fix: arun aligns clouds with repeated singular values

Two equal non-zero singular values (cube-like clouds) have a unique solution;
only a rank below two, or a reflection whose axis is not unique, does not.
---
 src/PCRegistration/arun.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..35483ed 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -42,7 +42,7 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
      *  2) calculate dispersion from centroids qx = x_i - cx
      *  3) calculate matrix H = sum qx_i * qy_i^T
      *  4) svd decomposition: H = U*D*V'
-     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
+     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are zero
      *  5) Calculate the rotation solution R = V*U'
      *      5.5) check for correct solution (det = +1) or reflection (det = -1)
      *      step 5.5 is actually unnecessary IF applying Umeyama technique
@@ -75,17 +75,9 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
+    // 4.5) look for co-linear solutions, that is the 2 smallest singular values are zero
+    if (SVD.singularValues()(1) < 1e-6)
+        return 0; //they are co-linear, there exist infinite transformations
 
 
     // 5) Calculate the rotation solution R = V*U'
@@ -97,6 +89,9 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
     // such as Vp = [v1,v2,-v3] and the solution is still minimal, but we want a valid rotation R \in SO(3)
     if (R.determinant() < 0.0 )
     {
+        // with l2 = l3 the axis to be reflected is not unique, there exist infinite transformations
+        if (SVD.singularValues()(1) - SVD.singularValues()(2) < 1e-6)
+            return 0;
         Mat3 Vn;
         Vn << SVD.matrixV().topLeftCorner<3,2>(), -SVD.matrixV().topRightCorner<3,1>();
         R << Vn * SVD.matrixU().transpose();
-- 
2.43.0


From abc1d13377fd37d8f36dd184727e2e8e1786158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 13/24] fix: points added after an estimate are part of the
 next plane estimate

---
 src/PCRegistration/plane.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..483a0ae 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -104,6 +104,13 @@ void Plane::push_back_point(Mat31 &point, uint_t t)
         //allPlanePoints_[t].push_back(homogeneousPoint);
         allPlanePoints_[t].push_back(point);
         ++numberPoints_;
+        // keep the S matrices, if already calculated, up to date
+        if (!matrixS_.empty())
+        {
+            Mat41 pHomog;
+            pHomog << point , 1.0;
+            matrixS_[t] += pHomog * pHomog.transpose();
+        }
     }
 }
 
-- 
2.43.0


From 4739877b5d3287b89ae5402aa774651a6c3b4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 14/24] fix: Plane::clear_points keeps the per-time storage
 valid

It removed the per-time vectors themselves, so the next point was written out
of bounds, and the counter and the S matrices kept the old points.
---
 src/PCRegistration/plane.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 483a0ae..3dd3a51 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -123,7 +123,11 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    for (std::vector<Mat31> &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
+    for (Mat4 &S : matrixS_)
+        S.setZero();
 }
 
 
-- 
2.43.0


From 1a6d3bbe855ec5ee67b042a6f9afd3832ce2f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 15/24] fix: incremental plane estimate keeps Q of the pose and
 the error up to date

---
 src/PCRegistration/plane.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 3dd3a51..59d4e3a 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -159,11 +159,13 @@ double Plane::estimate_plane()
 double Plane::estimate_plane_incrementally(uint_t t)
 {
     accumulatedQ_ -= matrixQ_[t];
-    accumulatedQ_ +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    matrixQ_[t] = trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ += matrixQ_[t];
     //std::cout << "new acc Q " << accumulatedQ_ << std::endl;
     Eigen::SelfAdjointEigenSolver<Mat4> eigs(accumulatedQ_);
     planeEstimation_ = eigs.eigenvectors().col(0);
-    return eigs.eigenvalues()(0);
+    lambda_ = eigs.eigenvalues()(0);
+    return lambda_;
 }
 
 double Plane::get_error_incremental(uint_t t) const
-- 
2.43.0


From 7d1b29015641cb3378879a291ee8e98762595a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 16/24] fix: PlaneRegistration::solve returns the number of
 iterations

---
 src/PCRegistration/plane_registration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 552285a..d4ee5b6 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -81,7 +81,7 @@ uint_t PlaneRegistration::solve(SolveMode mode, bool singleIteration)
 {
     // just in case some methods, such as gradient, has several modes
     solveMode_ = mode;
-    uint_t iters = 0;
+    solveIters_ = 0;
     initial_error_ = get_current_error();
 
     // time profiling
@@ -123,7 +123,7 @@ uint_t PlaneRegistration::solve(SolveMode mode, bool singleIteration)
         default:
             return 0;
     }
-    return iters;
+    return solveIters_;
 }
 
 
-- 
2.43.0


From 991eebdb971965683f1a374ea447844b7694ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 17/24] fix: GRADIENT_ALL_POSES honours singleIteration

---
 src/PCRegistration/plane_registration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index d4ee5b6..d38621d 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -92,7 +92,7 @@ uint_t PlaneRegistration::solve(SolveMode mode, bool singleIteration)
             return solve_initialize();
         case SolveMode::GRADIENT_ALL_POSES:
             time_profiles_.start();
-            solve_gradient_all_poses();
+            solve_gradient_all_poses(singleIteration);
             time_profiles_.stop();
             break;
         case SolveMode::GRADIENT_BENGIOS_NAG:
-- 
2.43.0


From d54cc1093957d7e70048e5f904a385653a86a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 18/24] fix: plane gradient solvers normalise by the points of
 each pose

The all-poses solver divided every pose by the number of points of the last
one, and both solvers divided by zero at a pose without points.
---
 src/PCRegistration/plane_registration.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index d38621d..b1b585b 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -161,7 +161,8 @@ uint_t PlaneRegistration::solve_interpolate_gradient(bool singleIteration)
                 numberPoints += it->second->get_number_points(t);
             }
             // XXX this could be changed to time stamps later
-            accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
+            if (numberPoints > 0.0)
+                accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
 
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
@@ -223,14 +224,16 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
                 jacobian.segment<6>(t*6) += it->second->calculate_gradient(t);
                 numberPoints += it->second->get_number_points(t);
             }
-
+            // gradient is normalized by the number of points observed at each pose
+            if (numberPoints > 0.0)
+                jacobian.segment<6>(t*6) /= numberPoints;
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
         // 3-1)
         Mat61 dxi;
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            Mat61 dxi = -(alpha_ / numberPoints / numberPoses_ )*jacobian.segment<6>(t*6);
+            Mat61 dxi = -(alpha_ / numberPoses_ )*jacobian.segment<6>(t*6);
             trajectory_->at(t).update_lhs(dxi);
         }
         ++solveIters_;
-- 
2.43.0


From ab83817df6bf685ecb896081ace36fadb70e24e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 19/24] fix: plane initialisation pairs each plane with itself

A plane not seen at the first pose shifted the correspondences of the others
and could read out of range; fewer than three common planes now fails.
---
 src/PCRegistration/plane_registration.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index b1b585b..1ec0a30 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -253,17 +253,9 @@ uint_t PlaneRegistration::solve_quaternion_plane()
 
 uint_t PlaneRegistration::solve_initialize()
 {
-    // Initialize matrices of , all points in the Y matrix
-    std::vector<Mat31> Y_points_all;
-    Y_points_all.reserve(numberPlanes_);
-
-    // update data structure for init. All point in the fist pose
+    // update data structure for init.
     for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
-    {
         it->second->calculate_all_matrices_S();
-        if (it->second->get_number_points(0) > 0 )
-            Y_points_all.push_back(it->second->get_mean_point(0));
-    }
 
     uint_t t = 0;
     // create points Y,X, for t = 1, ... T, minimum 3 planes per pose
@@ -277,17 +269,18 @@ uint_t PlaneRegistration::solve_initialize()
         X_points.clear();
         Y_points.clear();
         number_points = 0;
-        uint_t cont =0;
+        // correspondences are the planes observed both in the first pose and in pose t
         for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
         {
-            if (it->second->get_number_points(t) > 0 )
+            if (it->second->get_number_points(0) > 0 && it->second->get_number_points(t) > 0 )
             {
                 X_points.push_back(it->second->get_mean_point(t));
-                Y_points.push_back(Y_points_all[cont]);
+                Y_points.push_back(it->second->get_mean_point(0));
                 number_points++;
             }
-            cont++;
         }
+        if (number_points < 3)
+            return 0;
         // Create the matrices X,Y
         MatX X(number_points,3), Y(number_points,3);
         for (uint_t i = 0; i < number_points; ++i)
-- 
2.43.0


From 238eca41b3824b472563c33a6561de17422b7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 20/24] fix: print_evaluate sizes its tables by the planes
 present

---
 src/PCRegistration/plane_registration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 1ec0a30..60277d1 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -412,8 +412,8 @@ std::vector<double> PlaneRegistration::print_evaluate()
     result[5] = initial_error_/k;
     result[6] = get_current_error()/k; //TODO this does not work for GN (but yes to GN ini...)
 
-    MatX allPlanes(numberPlanes_,4);
-    MatX allNormals(numberPlanes_,3);
+    MatX allPlanes(planes_.size(),4);
+    MatX allNormals(planes_.size(),3);
     uint_t i = 0;
 
 
-- 
2.43.0


From ace74658de238277d8cb3c4753b4c6e109276b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 21/24] fix: print_evaluate does not read an uninitialised
 Hessian

---
 src/PCRegistration/plane_registration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 60277d1..6781adf 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -432,6 +432,7 @@ std::vector<double> PlaneRegistration::print_evaluate()
             break;
         case SolveMode::INITIALIZE:
         case SolveMode::GN_CLAMPED_HESSIAN:
+            hessian__.setZero();// no Hessian is calculated in these modes
             std::cout << "PlaneRegistration::print_evaluate: Not handled" << std::endl;
             break;
     }
-- 
2.43.0


From 161d63662e121c393cceafe2d6a2bb8af5fe2c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 22/24] fix: SO3::ln picks a non-zero column when two diagonal
 entries tie

---
 src/geometry/SO3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 6242373..a9eeadf 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -189,14 +189,14 @@ Mat3 SO3::ln(double *ro) const
         Mat31 w;
         double d = std::cos(o);
 
-        if( R_(0,0) > R_(1,1) && R_(0,0) > R_(2,2) )
+        if( R_(0,0) >= R_(1,1) && R_(0,0) >= R_(2,2) )
         {
             // For stability, we average the two elements since it is almost symetric
             w << R_(0,0) - d,
                  0.5 * ( R_(0,1) + R_(1,0)),
                  0.5 * ( R_(0,2) + R_(2,0));
         }
-        else if( R_(1,1) > R_(0,0) && R_(1,1) > R_(2,2) )
+        else if( R_(1,1) >= R_(0,0) && R_(1,1) >= R_(2,2) )
         {
             w << 0.5 * ( R_(1,0) + R_(0,1)),
                  R_(1,1) - d,
-- 
2.43.0


From da1b2c843bb0724a4166df9d2579b104ce55ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 23/24] fix: Node::rm_factor does not erase past the end for an
 unknown factor

---
 src/FGraph/node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..e26614f 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -52,6 +52,9 @@ bool Node::rm_factor(std::shared_ptr<Factor> &factor)
         if (*f == factor)
             break;
     }
+    // not connected to this node: nothing to remove
+    if (f == neighbourFactors_.end())
+        return false;
     neighbourFactors_.erase(f);
     return true;
 }
-- 
2.43.0


From f6ef00db8cfca348ceec0052dfdd2cf4c6385823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 24/24] fix: calculate_poses_rmse compares as many poses as the
 problem has

---
 src/PCRegistration/plane_registration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 6781adf..4e9e1e3 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -351,13 +351,13 @@ double PlaneRegistration::calculate_poses_rmse(std::vector<SE3> & groundTruth) c
 {
     assert(groundTruth.size() >= numberPoses_ && "PlaneRegistration::calculate_poses_rmse: number of poses from GT is incorrect\n");
     double rmse= 0.0;
-    uint_t t = 0;
-    for (auto &pose: groundTruth)
+    // the ground truth may cover more poses than this problem
+    for (uint_t t = 0; t < numberPoses_; ++t)
     {
+        const SE3 &pose = groundTruth[t];
         Mat61 dxi = (trajectory_->at(t) * pose.inv()).ln_vee();
         //std::cout << pose.ln_vee().transpose() << " and solution inv first pose \n" << (invFirstPose * trajectory_->at(t) * pose.inv()).ln_vee().transpose() <<std::endl;
         rmse += dxi.dot(dxi)/(double)numberPoses_;
-        ++t;
     }
     return std::sqrt(rmse);
 }
-- 
2.43.0

