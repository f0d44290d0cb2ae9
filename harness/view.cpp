// Results of accessors are kept across other accessor calls and calls on other objects, then read.
#include "mrob/SE3.hpp"
#include "mrob/SO3.hpp"
#include "mrob/SE3cov.hpp"
#include "mrob/node.hpp"
#include "mrob/factor.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#include "mrob/plane.hpp"
#include "vf.hpp"
#include <memory>
using namespace mrob;
typedef std::shared_ptr<Node> NP; typedef std::shared_ptr<Factor> FP;
static int churn(int k) { double a[32]; for (int i = 0; i < 32; ++i) a[i] = k + i; double s = 0; for (int i = 0; i < 32; ++i) s += a[i]; return s > 0; } // reuses the stack
template <int R, int C, class N> static void node(N &a, N &b) {
  Eigen::Matrix<double, R, C, C == 1 ? Eigen::ColMajor : Eigen::RowMajor> ya = vin<R, C>("ya"), yb = vin<R, C>("yb"), z = vin<R, C>("z");
  a.set_auxiliary_state(ya); b.set_auxiliary_state(yb); Node &A = a, &B = b; // as the graph sees them
  { MatX t = A.get_state(); vout("e1", t); t = A.get_auxiliary_state(); vout("e2", t); t = B.get_state(); vout("e3", t); t = B.get_auxiliary_state(); vout("e4", t); }
  auto &&s1 = A.get_state(); auto &&x1 = A.get_auxiliary_state(); auto &&s2 = B.get_state(); auto &&x2 = B.get_auxiliary_state(); churn(3); vout("v1", s1); vout("v2", x1); vout("v3", s2); vout("v4", x2);
  auto &&d1 = a.get_state(); auto &&d2 = a.get_auxiliary_state(); auto &&d3 = b.get_state(); auto &&d4 = b.get_auxiliary_state(); churn(4); vout("w1", d1); vout("w2", d2); vout("w3", d3); vout("w4", d4);
  A.set_state(z); B.set_state(z); churn(5); vout("l1", s1); vout("l2", x1); vout("l3", s2); vout("l4", x2); // alive, whatever they show
}
#define NODE(NAME, T, R, C) H H_v_##NAME() { T a(vin<R, C>("xa")), b(vin<R, C>("xb")); node<R, C>(a, b); }
NODE(Pose2d, NodePose2d, 3, 1) NODE(Landmark2d, NodeLandmark2d, 2, 1) NODE(Landmark3d, NodeLandmark3d, 3, 1) NODE(Plane4d, NodePlane4d, 4, 1) NODE(Pose3d, NodePose3d, 4, 4)
H H_v_SE3() {
  SE3 a(Mat4(vin<4, 4>("xa"))), b(Mat4(vin<4, 4>("xb"))); { MatX t = a.T(); vout("e1", t); t = b.T(); vout("e2", t); }
  auto &&u = a.T(); auto &&v = b.T(); churn(3); vout("v1", u); vout("v2", v); auto &&r = a.R(); auto &&t = a.t(); auto &&r2 = b.R(); auto &&t2 = b.t(); auto &&l = a.ln_vee(); auto &&l2 = b.ln_vee(); churn(4);
  vout("v3", r); vout("v4", t); vout("v5", r2); vout("v6", t2); vout("v7", l); vout("v8", l2); vout("e3", a.R()); vout("e4", a.t()); vout("e5", b.R()); vout("e6", b.t()); vout("e7", a.ln_vee()); vout("e8", b.ln_vee());
  Mat61 d = vin<6, 1>("d"); a.update_lhs(d); b = a; churn(5); vout("l1", u); vout("l2", v); auto &&i = a.inv(); auto &&m = a * b; auto &&j = a.adj(); churn(6); vout("v9", i.T()); vout("e9", a.inv().T()); vout("v10", m.T()); vout("e10", (a * b).T()); vout("v11", j); vout("e11", a.adj());
}
H H_v_SO3() {
  SO3 a(Mat3(vin<3, 3>("xa"))), b(Mat3(vin<3, 3>("xb"))); { MatX t = a.R(); vout("e1", t); t = b.R(); vout("e2", t); }
  auto &&u = a.R(); auto &&v = b.R(); auto &&l = a.ln_vee(); auto &&j = b.adj(); churn(3); vout("v1", u); vout("v2", v); vout("v3", l); vout("e3", a.ln_vee()); vout("v4", j); vout("e4", b.adj());
  Mat31 d = vin<3, 1>("d"); a.update_lhs(d); b = a; churn(5); vout("l1", u); vout("l2", v); auto &&i = a.inv(); churn(6); vout("v5", i.R()); vout("e5", a.inv().R());
}
H H_v_SE3Cov() {
  Mat6 S = vin<6, 6>("sa"), U = vin<6, 6>("sb"); SE3Cov a(SE3(Mat4(vin<4, 4>("xa"))), S), b(SE3(Mat4(vin<4, 4>("xb"))), U); { MatX t = a.cov(); vout("e1", t); t = b.cov(); vout("e2", t); t = a.T(); vout("e3", t); }
  auto &&u = a.cov(); auto &&v = b.cov(); auto &&t = a.T(); churn(3); vout("v1", u); vout("v2", v); vout("v3", t);
}
template <class F> static void factor(F *pa, F *pb) {
  Factor &A = *pa, &B = *pb; Factor *fs[] = {&A, &B}; for (Factor *f : fs) { f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); }
  { MatX t = A.get_obs(); vout("e1", t); t = A.get_information_matrix(); vout("e2", t); t = A.get_jacobian(); vout("e3", t); MatX1 r = A.get_residual(); vout("e4", r); t = B.get_obs(); vout("e5", t); t = B.get_information_matrix(); vout("e6", t); t = B.get_jacobian(); vout("e7", t); r = B.get_residual(); vout("e8", r); }
  { auto &&a1 = A.get_obs(); auto &&a2 = A.get_information_matrix(); auto &&a3 = A.get_jacobian(); auto &&a4 = A.get_residual(); auto &&b1 = B.get_obs(); auto &&b2 = B.get_information_matrix(); auto &&b3 = B.get_jacobian(); auto &&b4 = B.get_residual(); churn(3);
  vout("v1", a1); vout("v2", a2); vout("v3", a3); vout("v4", a4); vout("v5", b1); vout("v6", b2); vout("v7", b3); vout("v8", b4);
  B.evaluate_residuals(); B.evaluate_jacobians(); B.evaluate_chi2(); churn(4); vout("l1", a1); vout("l2", a2); vout("l3", a3); vout("l4", a4); vout("l5", b1); vout("l6", b2); vout("l7", b3); vout("l8", b4); }
  auto &&c1 = pa->get_obs(); auto &&c2 = pa->get_information_matrix(); auto &&c3 = pa->get_jacobian(); auto &&c4 = pa->get_residual(); auto &&d1 = pb->get_obs(); auto &&d2 = pb->get_information_matrix(); auto &&d3 = pb->get_jacobian(); auto &&d4 = pb->get_residual(); churn(5);
  vout("w1", c1); vout("w2", c2); vout("w3", c3); vout("w4", c4); vout("w5", d1); vout("w6", d2); vout("w7", d3); vout("w8", d4);
  auto *l = A.get_neighbour_nodes(); auto *m = B.get_neighbour_nodes(); churn(6); vouti("n1", (*l)[0]->get_id()); vouti("n2", (*m)[0]->get_id());
}
typedef Factor::robustFactorType RT;
#define WM(N, n) Eigen::Matrix<double, N, N, Eigen::RowMajor>(vin<N, N>(n))
template <class N, int R, int C> static NP nd(const char *n, int id) { NP p(new N(vin<R, C>(n))); p->set_id(id); return p; }
#define P2(n, i) nd<NodePose2d, 3, 1>(n, i)
#define P3(n, i) nd<NodePose3d, 4, 4>(n, i)
#define FAC(NAME, N1, N2, EA, EB) H H_v_##NAME() { NP x = N1("xa", 0), y = N2("xb", 1); factor(EA, EB); }
#define L2(n, i) nd<NodeLandmark2d, 2, 1>(n, i)
#define L3(n, i) nd<NodeLandmark3d, 3, 1>(n, i)
#define PL(n, i) nd<NodePlane4d, 4, 1>(n, i)
FAC(1p2, P2, P2, new Factor1Pose2d(vin<3, 1>("za"), x, WM(3, "wa")), new Factor1Pose2d(vin<3, 1>("zb"), y, WM(3, "wb"), RT::HUBER))
FAC(2p2, P2, P2, new Factor2Poses2d(vin<3, 1>("za"), x, y, WM(3, "wa")), new Factor2Poses2d(vin<3, 1>("zb"), x, y, WM(3, "wb")))
FAC(od, P2, P2, new Factor2Poses2dOdom(vin<3, 1>("za"), x, y, WM(3, "wa"), false), new Factor2Poses2dOdom(vin<3, 1>("zb"), x, y, WM(3, "wb"), false))
FAC(pl2, P2, L2, new Factor1Pose1Landmark2d(vin<2, 1>("za"), x, y, WM(2, "wa")), new Factor1Pose1Landmark2d(vin<2, 1>("zb"), x, y, WM(2, "wb")))
FAC(1p3, P3, P3, new Factor1Pose3d(SE3(Mat4(vin<4, 4>("za"))), x, WM(6, "wa")), new Factor1Pose3d(Mat4(vin<4, 4>("zb")), y, WM(6, "wb")))
FAC(2p3, P3, P3, new Factor2Poses3d(SE3(Mat4(vin<4, 4>("za"))), x, y, WM(6, "wa")), new Factor2Poses3d(Mat4(vin<4, 4>("zb")), x, y, WM(6, "wb")))
FAC(pl3, P3, L3, new Factor1Pose1Landmark3d(vin<3, 1>("za"), x, y, WM(3, "wa")), new Factor1Pose1Landmark3d(vin<3, 1>("zb"), x, y, WM(3, "wb")))
FAC(pp, P3, PL, new Factor1Pose1Plane4d(vin<4, 1>("za"), x, y, WM(4, "wa")), new Factor1Pose1Plane4d(vin<4, 1>("zb"), x, y, WM(4, "wb")))
FAC(p2p, P3, P3, new Factor1PosePoint2Plane(vin<3, 1>("za"), vin<3, 1>("ya"), vin<3, 1>("na"), x, Mat1(vf_in("wa", 0, 0))), new Factor1PosePoint2Plane(vin<3, 1>("zb"), vin<3, 1>("yb"), vin<3, 1>("nb"), y, Mat1(vf_in("wb", 0, 0))))
// matrices of a solved graph outlive later solves of other graphs
H H_v_graph() {
  FGraphSolve g[2]; const char *n[] = {"xa", "xb"}, *z[] = {"za", "zb"}, *w[] = {"wa", "wb"};
  for (int i = 0; i < 2; ++i) { NP p = P2(n[i], 0); g[i].add_node(p); FP f(new Factor1Pose2d(vin<3, 1>(z[i]), p, WM(3, w[i]))); g[i].add_factor(f); g[i].solve(); }
  { MatX t = g[0].get_information_matrix(); vout("e1", t); t = g[0].get_adjacency_matrix(); vout("e2", t); t = g[0].get_vector_b(); vout("e3", t); t = g[0].get_chi2_array(); vout("e4", t); t = g[0].get_W_matrix(); vout("e5", t); t = g[0].get_estimated_state()[0]; vout("e6", t); }
  auto &&a = g[0].get_information_matrix(); auto &&b = g[0].get_adjacency_matrix(); auto &&c = g[0].get_vector_b(); auto &&d = g[0].get_chi2_array(); auto &&e = g[0].get_W_matrix(); auto &&s = g[0].get_estimated_state(); auto &&a2 = g[1].get_information_matrix(); auto &&s2 = g[1].get_estimated_state(); churn(3);
  { MatX t = a; vout("v1", t); t = b; vout("v2", t); t = c; vout("v3", t); t = d; vout("v4", t); t = e; vout("v5", t); t = s[0]; vout("v6", t); t = a2; vout("l1", t); t = s2[0]; vout("l2", t); }
}
