#include "mrob/SE3.hpp"
#include "mrob/node.hpp"
#include "mrob/factor.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#include "vf.hpp"
#include <memory>
using namespace mrob;
typedef std::shared_ptr<Node> NP; typedef std::shared_ptr<Factor> FP;
// ---- wrap
H H_wrap() { vouts("w", wrap_angle(vf_in("a", 0, 0))); }
// ---- nodes
static const Node::nodeMode modes[] = {Node::STANDARD, Node::ANCHOR};
template <class N, int R, int C, int D> static void node_hist() {
  N n(vin<R, C>("x0"));
  vout("s0", n.get_state()); vout("a0", n.get_auxiliary_state()); vouti("dim", n.get_dim()); vouti("mode", n.get_node_mode()); vouti("id", n.get_id());
  n.set_auxiliary_state(vin<R, C>("y")); vout("s1", n.get_state()); vout("a1", n.get_auxiliary_state());
  n.set_state(vin<R, C>("z")); vout("s2", n.get_state()); vout("a2", n.get_auxiliary_state());
  MatX1 dx = vin<D, 1>("dx"), ex = vin<D, 1>("ex");
  n.update(dx); vout("s3", n.get_state()); vout("a3", n.get_auxiliary_state());
  n.update_from_auxiliary(ex); vout("s4", n.get_state()); vout("a4", n.get_auxiliary_state());
  n.update(dx); vout("s5", n.get_state()); vout("a5", n.get_auxiliary_state());
  n.set_auxiliary_state(n.get_state()); vout("s6", n.get_state()); vout("a6", n.get_auxiliary_state());
  n.update(ex); n.set_state(n.get_auxiliary_state()); vout("s7", n.get_state()); vout("a7", n.get_auxiliary_state());
  n.set_auxiliary_state(vin<R, C>("y")); n.update_from_auxiliary(ex); n.update_from_auxiliary(dx); vout("s8", n.get_state()); vout("a8", n.get_auxiliary_state());
  n.update_from_auxiliary(dx); vout("s9", n.get_state());
  N m(vin<R, C>("x0"), Node::ANCHOR); vouti("mode2", m.get_node_mode()); m.set_id(7); vouti("id2", m.get_id()); vouti("dim2", m.get_dim()); m.set_node_mode(Node::STANDARD); vouti("mode3", m.get_node_mode());
  n.set_id(3); vouti("id3", n.get_id());
}
H H_node_Pose2d() { node_hist<NodePose2d, 3, 1, 3>(); }
H H_node_Landmark2d() { node_hist<NodeLandmark2d, 2, 1, 2>(); }
H H_node_Landmark3d() { node_hist<NodeLandmark3d, 3, 1, 3>(); }
H H_node_Plane4d() { node_hist<NodePlane4d, 4, 1, 4>(); }
H H_node_Pose3d() { node_hist<NodePose3d, 4, 4, 6>(); Mat61 d = vin<6, 1>("dx"), e = vin<6, 1>("ex"); vout("Ed", SE3(d).T()); vout("Ee", SE3(e).T()); }
H H_node_Pose3d_se3() {
  SE3 x = SE3(Mat4(vin<4, 4>("x0"))); NodePose3d n(x), m(x, Node::ANCHOR);
  vout("s0", n.get_state()); vout("a0", n.get_auxiliary_state()); vouti("dim", n.get_dim()); vouti("mode", n.get_node_mode()); vouti("mode2", m.get_node_mode()); vouti("dim2", m.get_dim());
}
// one update from a fresh node
H H_upd_Pose2d() { NodePose2d n(vin<3, 1>("x0")); MatX1 d = vin<3, 1>("dx"); n.update(d); vout("s", n.get_state()); vout("a", n.get_auxiliary_state()); }
H H_upda_Pose2d() { NodePose2d n(vin<3, 1>("z")); Mat31 x = vin<3, 1>("x0"); n.set_auxiliary_state(x); MatX1 d = vin<3, 1>("dx"); n.update_from_auxiliary(d); vout("s", n.get_state()); vout("a", n.get_auxiliary_state()); }
H H_set_Pose2d() { NodePose2d n(vin<3, 1>("z")); Mat31 x = vin<3, 1>("x0"); n.set_state(x); vout("s", n.get_state()); }
H H_seta_Pose2d() { NodePose2d n(vin<3, 1>("z")); Mat31 x = vin<3, 1>("x0"); n.set_auxiliary_state(x); vout("a", n.get_auxiliary_state()); }
// ---- factors
static void info(Factor &f) {
  vouti("dim", f.get_dim()); vouti("all", f.get_all_nodes_dim());
  auto *l = f.get_neighbour_nodes(); vouti("nn", l->size());
  int all = 0;
  for (size_t i = 0; i < l->size(); ++i) { vf_outi("nid", i, 0, (*l)[i]->get_id()); all += (*l)[i]->get_dim(); }
  vouti("ndims", all);
  f.set_id(9); vouti("fid", f.get_id());
}
static void shapes(Factor &f) {
  vouti("r_rows", f.get_residual().rows()); vouti("r_cols", f.get_residual().cols()); vouti("J_rows", f.get_jacobian().rows()); vouti("J_cols", f.get_jacobian().cols());
  vouti("W_rows", f.get_information_matrix().rows()); vouti("W_cols", f.get_information_matrix().cols());
  vout("W", f.get_information_matrix()); vouts("u0", f.evaluate_robust_weight(vf_in("u", 0, 0)));
}
static void lnspec() { vout("sl", SE3(Mat4(vin<4, 4>("L"))).ln_vee()); }
static void evals(Factor &f) {
  f.evaluate_residuals(); vout("rr", f.get_residual()); f.evaluate_jacobians(); f.evaluate_chi2();
  vout("r", f.get_residual()); vout("J", f.get_jacobian()); vouts("chi2", f.get_chi2());
  f.evaluate_chi2(); vouts("chi2b", f.get_chi2());
}
#define OBS(R, C) vin<R, C>("z")
typedef Factor::robustFactorType RT;
#define ROB RT rt = RT::HUBER;
// variables at creation (x0, y0), moved afterwards to (x, y)
template <class N1, class N2, int R1, int C1, int R2, int C2, class MK> static void two(bool rev, MK mk) {
  if (C1 == 4 && C2 == 4) lnspec();
  NP a(new N1(vin<R1, C1>("x0"))), b(new N2(vin<R2, C2>("y0")));
  a->set_id(rev ? 5 : 2); b->set_id(rev ? 2 : 5);
  FP f(mk(a, b)); info(*f); vout("z", f->get_obs());
  vout("xc", a->get_state()); vout("yc", b->get_state()); vout("xca", a->get_auxiliary_state()); vout("yca", b->get_auxiliary_state());
  vouti("eqn", f->get_neighbour_nodes()->at(0).get() == (rev ? b : a).get() && f->get_neighbour_nodes()->at(1).get() == (rev ? a : b).get());
  f->evaluate_residuals(); f->evaluate_jacobians(); vout("rc", f->get_residual()); vout("Jc", f->get_jacobian());
  a->set_state(vin<R1, C1>("x")); b->set_state(vin<R2, C2>("y"));
  a->set_auxiliary_state(vin<R1, C1>("xa")); b->set_auxiliary_state(vin<R2, C2>("ya"));
  evals(*f); shapes(*f); vout("xe", a->get_state()); vout("ye", b->get_state());
}
template <class N1, int R1, int C1, class MK> static void one(MK mk) {
  if (C1 == 4) lnspec();
  NP a(new N1(vin<R1, C1>("x0"))); a->set_id(4);
  FP f(mk(a)); info(*f); vout("z", f->get_obs()); vout("xc", a->get_state());
  f->evaluate_residuals(); f->evaluate_jacobians(); vout("rc", f->get_residual());
  a->set_state(vin<R1, C1>("x")); a->set_auxiliary_state(vin<R1, C1>("xa"));
  evals(*f); shapes(*f); vout("xe", a->get_state());
}
static const RT Q = RT::QUADRATIC, U = RT::HUBER, CA = RT::CAUCHY, MC = RT::MCCLURE, RA = RT::RANSAC;
#define ONE(NAME, N1, R1, C1, EXPR) H NAME() { one<N1, R1, C1>([](NP &a) { return EXPR; }); }
#define TWO(NAME, N1, N2, R1, C1, R2, C2, EXPR) H NAME##_f() { two<N1, N2, R1, C1, R2, C2>(false, [](NP &a, NP &b) { return EXPR; }); } H NAME##_r() { two<N1, N2, R1, C1, R2, C2>(true, [](NP &a, NP &b) { return EXPR; }); }
#define W_(N) Eigen::Matrix<double, N, N, Eigen::RowMajor>(vin<N, N>("W"))
ONE(H_f_1p2, NodePose2d, 3, 1, new Factor1Pose2d(OBS(3, 1), a, W_(3), U))
ONE(H_f_1p3, NodePose3d, 4, 4, new Factor1Pose3d(Mat4(OBS(4, 4)), a, W_(6), CA))
ONE(H_f_1p3s, NodePose3d, 4, 4, new Factor1Pose3d(SE3(Mat4(OBS(4, 4))), a, W_(6), MC))
ONE(H_f_p2p, NodePose3d, 4, 4, new Factor1PosePoint2Plane(OBS(3, 1), vin<3, 1>("zy"), vin<3, 1>("zn"), a, Mat1(vf_in("W", 0, 0)), RA))
TWO(H_f_2p2, NodePose2d, NodePose2d, 3, 1, 3, 1, new Factor2Poses2d(OBS(3, 1), a, b, W_(3), false, U))
TWO(H_f_2p2u, NodePose2d, NodePose2d, 3, 1, 3, 1, new Factor2Poses2d(OBS(3, 1), a, b, W_(3), true, MC))
TWO(H_f_od, NodePose2d, NodePose2d, 3, 1, 3, 1, new Factor2Poses2dOdom(OBS(3, 1), a, b, W_(3), false, CA))
TWO(H_f_odu, NodePose2d, NodePose2d, 3, 1, 3, 1, new Factor2Poses2dOdom(OBS(3, 1), a, b, W_(3), true, RA))
TWO(H_f_2p3, NodePose3d, NodePose3d, 4, 4, 4, 4, new Factor2Poses3d(Mat4(OBS(4, 4)), a, b, W_(6), false, U))
TWO(H_f_2p3u, NodePose3d, NodePose3d, 4, 4, 4, 4, new Factor2Poses3d(Mat4(OBS(4, 4)), a, b, W_(6), true, CA))
TWO(H_f_2p3s, NodePose3d, NodePose3d, 4, 4, 4, 4, new Factor2Poses3d(SE3(Mat4(OBS(4, 4))), a, b, W_(6), false, MC))
TWO(H_f_2p3su, NodePose3d, NodePose3d, 4, 4, 4, 4, new Factor2Poses3d(SE3(Mat4(OBS(4, 4))), a, b, W_(6), true, RA))
TWO(H_f_pl2, NodePose2d, NodeLandmark2d, 3, 1, 2, 1, new Factor1Pose1Landmark2d(OBS(2, 1), a, b, W_(2), false, U))
TWO(H_f_pl2u, NodePose2d, NodeLandmark2d, 3, 1, 2, 1, new Factor1Pose1Landmark2d(OBS(2, 1), a, b, W_(2), true, CA))
TWO(H_f_pl3, NodePose3d, NodeLandmark3d, 4, 4, 3, 1, new Factor1Pose1Landmark3d(OBS(3, 1), a, b, W_(3), false, U))
TWO(H_f_pp, NodePose3d, NodePlane4d, 4, 4, 4, 1, new Factor1Pose1Plane4d(OBS(4, 1), a, b, W_(4), U))
// default kernels and flags
template <class MK> static void dfl1(MK mk) { FP f(mk()); vouts("u0", f->evaluate_robust_weight(vf_in("u", 0, 0))); }
H H_f_defaults() {
  NP a(new NodePose2d(vin<3, 1>("x0"))), b(new NodePose2d(vin<3, 1>("y0"))), l(new NodeLandmark2d(vin<2, 1>("l0"))); a->set_id(1); b->set_id(2); l->set_id(3);
  NP A(new NodePose3d(Mat4(vin<4, 4>("X0")))), B(new NodePose3d(Mat4(vin<4, 4>("Y0")))), L(new NodeLandmark3d(vin<3, 1>("L0"))), P(new NodePlane4d(vin<4, 1>("P0"))); A->set_id(4); B->set_id(5); L->set_id(6); P->set_id(7);
  Factor *fs[] = {new Factor1Pose2d(vin<3, 1>("z3"), a, W_(3)), new Factor2Poses2d(vin<3, 1>("z3"), a, b, W_(3)), new Factor2Poses2dOdom(vin<3, 1>("z3"), a, b, W_(3), false), new Factor1Pose1Landmark2d(vin<2, 1>("z2"), a, l, W_(2)),
    new Factor1Pose3d(Mat4(vin<4, 4>("Z")), A, W_(6)), new Factor2Poses3d(Mat4(vin<4, 4>("Z")), A, B, W_(6)), new Factor2Poses3d(SE3(Mat4(vin<4, 4>("Z"))), A, B, W_(6)), new Factor1Pose1Landmark3d(vin<3, 1>("z3"), A, L, W_(3)), new Factor1Pose1Plane4d(vin<4, 1>("z4"), A, P, W_(4)),
    new Factor1PosePoint2Plane(vin<3, 1>("z3"), vin<3, 1>("z3"), vin<3, 1>("z3"), A, Mat1(1.0))};
  for (int i = 0; i < 10; ++i) vf_out("u", i, 0, fs[i]->evaluate_robust_weight(vf_in("d", 0, 0)));
  vout("a", a->get_state()); vout("b", b->get_state()); vout("l", l->get_state()); vout("A", A->get_state()); vout("B", B->get_state()); vout("L", L->get_state()); vout("P", P->get_state());
}
// ---- robust kernels on a minimal factor
struct MockF : public Factor {
  Mat1 m; MockF(RT t) : Factor(1, 1, t), m(1.0) {}
  void evaluate_residuals() override {} void evaluate_jacobians() override {} void evaluate_chi2() override {}
  const Eigen::Ref<const MatX> get_obs() const override { return m; } const Eigen::Ref<const MatX1> get_residual() const override { return m; }
  const Eigen::Ref<const MatX> get_information_matrix() const override { return m; } const Eigen::Ref<const MatX> get_jacobian() const override { return m; }
};
H H_robust() {
  RT ts[] = {Q, U, CA, MC, RA}; double u = vf_in("u", 0, 0), v = vf_in("v", 0, 0);
  for (int i = 0; i < 5; ++i) { MockF f(ts[i]); vf_out("w", i, 0, f.evaluate_robust_weight(u)); vf_out("w2", i, 0, f.evaluate_robust_weight(v)); }
  MockF *d = new MockF(Q); vouts("chi0", d->get_chi2()); delete d;
}
