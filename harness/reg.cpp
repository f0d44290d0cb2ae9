#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
#include "vf.hpp"
#include <memory>
using namespace mrob;
static MatX in_(const char *n, int r, int c = 1) { MatX m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = vf_in(n, i, j); return m; }
static SE3 pin(const char *n) { Mat4 m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m(i, j) = vf_in(n, i, j); return SE3(m); }
static Mat31 pt(const char *n, int k) { Mat31 p; for (int j = 0; j < 3; ++j) p(j) = vf_in(n, k, j); return p; }
// closed form alignment
static void arun(int N) {
  MatX X = in_("X", N, 3), Y = in_("Y", N, 3); SE3 T = pin("T");
  vouti("ret", PCRegistration::arun(X, Y, T)); vout("T", T.T()); vout("X", X); vout("Y", Y);
}
H H_arun3() { arun(3); } H H_arun4() { arun(4); } H H_arun5() { arun(5); } H H_arun8() { arun(8); } H H_arun19() { arun(19); } H H_arun67() { arun(67); } H H_arun131() { arun(131); }
H H_arun_block() { // points that are rows of a larger array
  MatX X = in_("X", 6, 5), Y = in_("Y", 6, 5); SE3 T; Eigen::MatrixXd x = X, y = Y;
  vouti("ret", PCRegistration::arun(x.block(1, 1, 4, 3), y.block(1, 1, 4, 3), T)); vout("T", T.T());
}
// iterative alignment
static void gicp(int N) {
  MatX X = in_("X", N, 3), Y = in_("Y", N, 3), cx(3 * N, 3), cy(3 * N, 3); SE3 T = pin("T");
  for (int i = 0; i < N; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { int lo = a < b ? a : b, hi = a < b ? b : a; cx(3 * i + a, b) = vf_in("cx", 3 * i + lo, hi); cy(3 * i + a, b) = vf_in("cy", 3 * i + lo, hi); }
  vouti("ret", PCRegistration::gicp(X, Y, cx, cy, T, vf_in("tol", 0, 0))); vout("T", T.T()); vout("X", X); vout("Y", Y); vout("cx", cx); vout("cy", cy);
}
static void wp(int N) {
  MatX X = in_("X", N, 3), Y = in_("Y", N, 3); MatX1 w = in_("w", N); SE3 T = pin("T");
  vouti("ret", PCRegistration::weighted_point(X, Y, w, T, vf_in("tol", 0, 0))); vout("T", T.T()); vout("X", X); vout("Y", Y); vout("w", w);
}
H H_gicp3() { gicp(3); } H H_gicp4() { gicp(4); } H H_gicp7() { gicp(7); } H H_wp3() { wp(3); } H H_wp4() { wp(4); } H H_wp7() { wp(7); }
H H_gicp19() { gicp(19); } H H_wp19() { wp(19); } H H_wp67() { wp(67); } H H_gicp67() { gicp(67); } H H_wp131() { wp(131); } H H_gicp131() { gicp(131); }
#ifndef CLOUD_N
#define CLOUD_N 300
#endif
H H_gicp_n() { gicp(CLOUD_N); } H H_wp_n() { wp(CLOUD_N); } H H_arun_n() { arun(CLOUD_N); }
// plane of a cloud
static void est(int N) {
  MatX X = in_("X", N, 3); Mat41 p = estimate_plane(X); vout("pl", p); Mat31 n = estimate_normal(X); vout("nm", n); Mat31 c = estimate_centroid(X); vout("ce", c); vout("X", X);
}
H H_est3() { est(3); } H H_est4() { est(4); } H H_est5() { est(5); } H H_est9() { est(9); } H H_est19() { est(19); } H H_est67() { est(67); } H H_est131() { est(131); } H H_est_n() { est(CLOUD_N); }
// one plane over several poses
static const char *TN[] = {"T0", "T1", "T2", "T3", "T4"};
static void snap(Plane &p, int n, const char *pi, const char *gr) { vout(pi, p.get_plane()); for (int t = 0; t < n; ++t) { Mat61 g = p.calculate_gradient(t); for (int i = 0; i < 6; ++i) vf_out(gr, t, i, g(i)); } }
static void snaph(Plane &p, int n, int id) { for (int t = 0; t < n; ++t) { p.calculate_gradient(t); Mat6 h = p.calculate_hessian(t); for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) vf_out("hh", 10 * id + t, 6 * i + j, h(i, j)); } }
H H_plane() {
  auto tr = std::make_shared<std::vector<SE3>>(); for (int t = 0; t < 4; ++t) tr->push_back(pin(TN[t]));
  Plane p(4); p.set_trajectory(tr); p.reserve(7, 0); p.reserve(7, 9);
  static const int at[] = {2, 0, 3, 0, 2, 4, 2, 0, 9, 3}; // times of the points; 4 and 9 do not exist, 1 stays empty
  for (int k = 0; k < 10; ++k) { Mat31 q = pt("P", k); p.push_back_point(q, at[k]); }
  for (int t = 0; t < 4; ++t) { vf_outi("np", t, 0, p.get_number_points(t)); auto &v = p.get_points(t); for (size_t k = 0; k < v.size(); ++k) for (int j = 0; j < 3; ++j) vf_out("gp", 10 * t + k, j, v[k](j)); }
  vouti("tot", p.get_total_number_points());
  vf_out("lam", 0, 0, p.estimate_plane()); vf_out("err", 0, 0, p.get_error()); snap(p, 4, "pi0", "g0"); snaph(p, 4, 0); vouti("beyond", p.get_points(4).size()); vouti("beyond2", p.get_points(99).size());
  vout("mean0", p.get_mean_point(0)); vout("mean2", p.get_mean_point(2));
  // another estimate without changes
  vf_out("lam", 1, 0, p.estimate_plane()); vf_out("err", 1, 0, p.get_error()); snap(p, 4, "pi1", "g1");
  // a later pose
  tr->at(2) = pin("U2"); vf_out("lam", 2, 0, p.estimate_plane()); vf_out("err", 2, 0, p.get_error()); snap(p, 4, "pi2", "g2");
  // points added after an estimate
  Mat31 a = pt("R", 0), b = pt("R", 1), z = pt("R", 2); p.push_back_point(a, 1); p.push_back_point(b, 2); p.push_back_point(z, 5);
  vouti("tot2", p.get_total_number_points()); vouti("np2", p.get_number_points(2));
  vf_out("lam", 3, 0, p.estimate_plane()); vf_out("err", 3, 0, p.get_error()); snap(p, 4, "pi3", "g3"); vout("mean1", p.get_mean_point(1));
  // reset keeps the data
  p.reset(); tr->at(0) = pin("U0"); vf_out("lam", 4, 0, p.estimate_plane()); vf_out("err", 4, 0, p.get_error()); snap(p, 4, "pi4", "g4"); snaph(p, 4, 4);
}
H H_plane_inc() {
  auto tr = std::make_shared<std::vector<SE3>>(); for (int t = 0; t < 3; ++t) tr->push_back(pin(TN[t]));
  Plane p(3); p.set_trajectory(tr); for (int k = 0; k < 7; ++k) { Mat31 q = pt("P", k); p.push_back_point(q, k % 3); }
  vf_out("lam", 0, 0, p.estimate_plane()); snap(p, 3, "pi0", "g0");
  tr->at(1) = pin("U1");
  vf_out("inc", 0, 0, p.get_error_incremental(1)); vf_out("err", 0, 0, p.get_error()); snap(p, 3, "pi1", "g1"); // a query only
  vf_out("lam", 1, 0, p.estimate_plane_incrementally(1)); vf_out("err", 1, 0, p.get_error()); snap(p, 3, "pi2", "g2");
  tr->at(1) = pin("V1"); vf_out("inc", 1, 0, p.get_error_incremental(1)); vf_out("lam", 2, 0, p.estimate_plane_incrementally(1)); vf_out("err", 2, 0, p.get_error()); snap(p, 3, "pi3", "g3");
  tr->at(2) = pin("U2"); vf_out("lam", 3, 0, p.estimate_plane_incrementally(2)); vf_out("err", 3, 0, p.get_error()); snap(p, 3, "pi4", "g4");
  for (int t = 0; t < 3; ++t) vf_out("inc", 2 + t, 0, p.get_error_incremental(t)); // nothing moved since
  tr->at(0) = pin("U0"); for (int t = 0; t < 3; ++t) vf_out("inc", 5 + t, 0, p.get_error_incremental(t)); // only the pose asked for is followed
  vf_out("lam", 4, 0, p.estimate_plane_incrementally(0)); vf_out("err", 4, 0, p.get_error()); snap(p, 3, "pi5", "g5");
  // a point added later counts from the next estimate of its time on
  Mat31 q = pt("R", 0); p.push_back_point(q, 2); vf_out("inc", 8, 0, p.get_error_incremental(2)); vf_out("inc", 9, 0, p.get_error_incremental(0)); vf_out("lam", 5, 0, p.estimate_plane_incrementally(2)); vf_out("err", 5, 0, p.get_error()); snap(p, 3, "pi6", "g6");
  vf_out("lam", 6, 0, p.estimate_plane()); vf_out("err", 6, 0, p.get_error()); snap(p, 3, "pi7", "g7");
}
H H_plane_clear() {
  auto tr = std::make_shared<std::vector<SE3>>(); for (int t = 0; t < 2; ++t) tr->push_back(pin(TN[t]));
  Plane p(2); p.set_trajectory(tr); for (int k = 0; k < 5; ++k) { Mat31 q = pt("P", k); p.push_back_point(q, k % 2); }
  vf_out("lam", 0, 0, p.estimate_plane()); p.clear_points(); vf_outi("np", 0, 0, p.get_number_points(0)); vf_outi("np", 1, 0, p.get_number_points(1)); vouti("tot", p.get_total_number_points());
  for (int k = 0; k < 4; ++k) { Mat31 q = pt("R", k); p.push_back_point(q, (k + 1) % 2); }
  vf_out("lam", 1, 0, p.estimate_plane()); snap(p, 2, "pi0", "g0"); vouti("tot2", p.get_total_number_points());
}
static void pbig(int n, int np) {
  auto tr = std::make_shared<std::vector<SE3>>(); for (int t = 0; t < n; ++t) tr->push_back(pin(TN[t]));
  Plane p(n); p.set_trajectory(tr); for (int k = 0; k < np; ++k) { Mat31 q = pt("P", k); p.push_back_point(q, k % n); }
  vf_out("lam", 0, 0, p.estimate_plane()); snap(p, n, "pi0", "g0");
}
H H_plane1() { pbig(1, 6); } H H_plane5() { pbig(5, 23); } H H_planeN() { pbig(2, 140); }
// plane registration
struct PR : public PlaneRegistration {
  std::vector<SE3> &tr() { return *trajectory_; } MatX1 &dx() { return dx_; } MatX1 &grad() { return gradient_; } MatX &hess() { return hessian_; } std::vector<Mat61> &prev() { return previousState_; }
  void one() { optimization_method_ = NEWTON_RAPHSON; optimize_newton_raphson_one_iteration(false); }
};
static void traj(PR &r, const char *s, const char *e, const char *l) { // poses and their interpolation by the public exponential and logarithm
  int n = r.get_number_poses(); vf_outi(s, 900, 0, r.tr().size());
  for (int t = 0; t < n; ++t) { Mat4 m = r.get_trajectory(t).T(); for (int i = 0; i < 16; ++i) vf_out(s, t, i, m(i / 4, i % 4)); }
  Mat4 m = r.get_last_pose().T(); for (int i = 0; i < 16; ++i) vf_out(l, 0, i, m(i / 4, i % 4));
  Mat61 xi = r.get_last_pose().ln_vee();
  for (int t = 0; t < n; ++t) { Mat61 d = (t / double(n - 1)) * xi; Mat4 q = SE3(d).T(); for (int i = 0; i < 16; ++i) vf_out(e, t, i, q(i / 4, i % 4)); }
}
static void ex6(const char *o, const char *i) { Mat61 d = in_(i, 6); vout(o, SE3(d).T()); }
static const uint_t ID[] = {7, 2, 40};
static const int PT[3][9] = {{0, 1, 2, 1, 0, 2, 1, 2, 0}, {2, 2, 0, 1, 1, 0, 2, 9, 9}, {0, 0, 1, 1, 0, 2, 2, 2, 9}}; // time of point k of plane q (9: none)
static const char *PN[] = {"Pa", "Pb", "Pc"};
static void fill(PR &r, int n, int np = 3) {
  r.set_number_planes_and_poses(np, n);
  for (int q = 0; q < np; ++q) {
    if (q == 1) { std::shared_ptr<Plane> p(new Plane(n)); for (int k = 0; k < 9; ++k) if (PT[q][k] < 3) { Mat31 x = pt(PN[q], k); p->push_back_point(x, PT[q][k] % n); } r.add_plane(ID[q], p); }
    else { r.add_new_plane(ID[q]); for (int k = 0; k < 9; ++k) if (PT[q][k] < 3) { Mat31 x = pt(PN[q], k); r.plane_push_back_point(ID[q], PT[q][k] % n, x); } }
  }
}
static void upd(int n) { // no planes: trajectory only
  PR r; r.set_number_planes_and_poses(0, n); traj(r, "s0", "e0", "l0"); ex6("Ea", "da"); ex6("Eb", "db"); vouti("n", r.get_number_poses());
  r.dx() = in_("da", 6); r.update_state(); traj(r, "s1", "e1", "l1");
  r.bookkeep_state(); traj(r, "s2", "e2", "l2"); r.dx() = in_("db", 6); r.update_state(); traj(r, "s3", "e3", "l3"); r.update_state_from_bookkeep(); traj(r, "s4", "e4", "l4");
  r.update_state(); traj(r, "s5", "e5", "l5"); r.update_state_from_bookkeep(); traj(r, "s6", "e6", "l6");
  SE3 L = pin("L"); r.set_last_pose(L); traj(r, "s7", "e7", "l7"); vout("L", L.T()); Mat61 lx = L.ln_vee(); vout("Lq", SE3(lx).T());
  r.reset_solution(); traj(r, "s8", "e8", "l8");
  r.set_number_planes_and_poses(0, n + 1); traj(r, "s9", "e9", "l9"); vouti("n9", r.get_number_poses());
  r.set_last_pose(L); r.set_number_planes_and_poses(0, n); traj(r, "s10", "e10", "l10"); // a new problem after a solution
}
H H_upd2() { upd(2); } H H_upd3() { upd(3); } H H_upd5() { upd(5); }
static void rg(int n) { // planes on the shared trajectory
  PR r; fill(r, n); vouti("npl", r.get_all_planes().size()); vouti("pts", r.calculate_total_number_points());
  r.tr()[n - 1] = pin("L"); for (int t = 1; t + 1 < n; ++t) r.tr()[t] = pin(TN[t]);
  vf_out("err", 0, 0, r.get_current_error()); vf_out("err", 1, 0, r.calculate_error());
  r.calculate_gradient_hessian(); vout("G", r.grad()); vout("Hs", r.hess());
  for (int t = 0; t < n; ++t) for (int q = 0; q < 3; ++q) { Mat61 g = r.get_all_planes().at(ID[q])->calculate_gradient(t); for (int i = 0; i < 6; ++i) vf_out("g", 10 * t + q, i, g(i)); }
  for (int t = 0; t < n; ++t) { auto pc = r.get_point_cloud(t); vf_outi("pc", t, 0, pc.size()); }
  // moving the last pose moves the planes' view of it, undoing brings it back
  r.bookkeep_state(); r.dx() = in_("da", 6); r.update_state(); vf_out("err", 2, 0, r.get_current_error()); for (int t = 0; t < n; ++t) { Mat4 m = r.get_trajectory(t).T(); for (int i = 0; i < 16; ++i) vf_out("m", t, i, m(i / 4, i % 4)); }
  r.calculate_gradient_hessian(); vout("G2", r.grad()); vout("Hs2", r.hess());
  r.update_state_from_bookkeep(); r.calculate_gradient_hessian(); vout("G3", r.grad()); vout("Hs3", r.hess()); vf_out("err", 3, 0, r.get_current_error()); for (int t = 0; t < n; ++t) { Mat4 m = r.get_trajectory(t).T(); for (int i = 0; i < 16; ++i) vf_out("u", t, i, m(i / 4, i % 4)); }
  r.reset_solution(); vf_out("err", 4, 0, r.get_current_error());
}
H H_reg2() { rg(2); } H H_reg3() { rg(3); }
// the gradient methods
static void nag(int n, PlaneRegistration::SolveMode m) {
  PR r; fill(r, n); r.set_alpha_parameter(vf_in("al", 0, 0)); r.set_beta_parameter(vf_in("be", 0, 0));
  vf_outi("it", 0, 0, r.solve(m, true)); traj(r, "s1", "e1", "l1"); r.reset_solution(); vf_outi("it", 1, 0, r.solve(m, true)); traj(r, "s2", "e2", "l2");
  vf_outi("it", 2, 0, r.solve(m, true)); traj(r, "s3", "e3", "l3"); // continued without a reset
}
static void nagm(int n, PlaneRegistration::SolveMode m) { // nothing is seen at time 1, two points at time 2; plane 2 is seen at the last time only
  PR r; r.set_number_planes_and_poses(2, n); r.set_alpha_parameter(vf_in("al", 0, 0)); r.set_beta_parameter(vf_in("be", 0, 0));
  for (int q = 0; q < 2; ++q) { r.add_new_plane(5 + 3 * q); for (int t = 0; t < n; ++t) if (t != 1 && (q == 0 || t == n - 1)) for (int k = 0; k <= (t == 2 ? 1 : t + q); ++k) { Mat31 x = pt(TN[t], 10 * q + k); r.plane_push_back_point(5 + 3 * q, t, x); } }
  vf_outi("it", 0, 0, r.solve(m, true)); traj(r, "s1", "e1", "l1");
}
H H_nagm4() { nagm(4, PlaneRegistration::GRADIENT_BENGIOS_NAG); } H H_allm4() { nagm(4, PlaneRegistration::GRADIENT_ALL_POSES); }
H H_nag2() { nag(2, PlaneRegistration::GRADIENT_BENGIOS_NAG); } H H_nag3() { nag(3, PlaneRegistration::GRADIENT_BENGIOS_NAG); } H H_all3() { nag(3, PlaneRegistration::GRADIENT_ALL_POSES); }
// first guess from centroids
static void ini(int n, int np, int miss) { // plane 0 is not seen at time 0, plane 1 not at time 1 (bits of miss)
  PR r; r.set_number_planes_and_poses(np, n);
  for (int q = 0; q < np; ++q) { r.add_new_plane(10 + 3 * q); for (int t = 0; t < n; ++t) if (!((miss >> (2 * q + t)) & 1)) for (int k = 0; k < 2; ++k) { Mat31 x = pt(TN[t], 2 * q + k); r.plane_push_back_point(10 + 3 * q, t, x); } }
  vouti("ret", r.solve(PlaneRegistration::INITIALIZE)); for (int t = 0; t < n; ++t) { Mat4 m = r.get_trajectory(t).T(); for (int i = 0; i < 16; ++i) vf_out("m", t, i, m(i / 4, i % 4)); }
}
H H_ini4() { ini(2, 4, 0); } H H_ini5a() { ini(2, 5, 1); } H H_ini5b() { ini(2, 5, 1 | 8); } H H_ini5c() { ini(2, 5, 64); } H H_ini5d() { ini(3, 5, 0); } H H_ini2() { ini(2, 2, 0); } H H_ini4m() { ini(2, 4, 1 | 8); }
static void ini3(int n, int np, unsigned miss) { // different numbers of points per plane and time; bit n*q+t of miss: plane q not seen at time t
  PR r; r.set_number_planes_and_poses(np, n);
  for (int q = 0; q < np; ++q) { r.add_new_plane(40 - 3 * q); for (int t = 0; t < n; ++t) if (!((miss >> (n * q + t)) & 1)) for (int k = 0; k < 1 + (q + 2 * t) % 3; ++k) { Mat31 x = pt(TN[t], 3 * q + k); r.plane_push_back_point(40 - 3 * q, t, x); } }
  if (miss == 0) { r.tr()[1] = pin("L"); r.tr()[n - 1] = pin("L"); } // an earlier solution does not matter
  vouti("ret", r.solve(PlaneRegistration::INITIALIZE)); for (int t = 0; t < n; ++t) { Mat4 m = r.get_trajectory(t).T(); for (int i = 0; i < 16; ++i) vf_out("m", t, i, m(i / 4, i % 4)); }
}
H H_inj0() { ini3(3, 4, 0); } H H_inj1() { ini3(3, 6, 1 | 16 | 256); } H H_inj2() { ini3(4, 5, 8 | 64); } H H_inj3() { ini3(3, 4, 2 | 32); } H H_inj4() { ini3(3, 5, 1 | 8 | 64); }
// summary
static void ev(int declared, int np, int solve = -1) {
  PR r; r.set_number_planes_and_poses(declared, 3);
  for (int q = 0; q < np; ++q) { r.add_new_plane(10 + 3 * q); for (int t = 0; t < 3; ++t) { Mat31 x = pt(TN[t], q); r.plane_push_back_point(10 + 3 * q, t, x); } }
  if (solve == PlaneRegistration::INITIALIZE) r.solve(PlaneRegistration::GRADIENT_BENGIOS_NAG, true); // an earlier solve does not matter
  if (solve >= 0) vouti("it", r.solve((PlaneRegistration::SolveMode)solve, true));
  for (int t = 0; t < 3; ++t) { Mat4 m = r.get_trajectory(t).T(); for (int i = 0; i < 16; ++i) vf_out("m", t, i, m(i / 4, i % 4)); }
  std::vector<double> v = r.print_evaluate(); for (size_t k = 0; k < v.size(); ++k) vf_out("v", k, 0, v[k]); vf_out("err", 0, 0, r.get_current_error());
  for (int t = 0; t < 3; ++t) { Mat4 m = r.get_trajectory(t).T(); for (int i = 0; i < 16; ++i) vf_out("n", t, i, m(i / 4, i % 4)); }
  for (int t = 0; t < 3; ++t) { auto pc = r.get_point_cloud(t); vf_outi("pc", t, 0, pc.size()); for (size_t k = 0; k < pc.size(); ++k) for (int j = 0; j < 3; ++j) vf_out("p", 10 * t + k, j, pc[k](j)); }
  vouti("np", r.get_number_poses()); vouti("tot", r.calculate_total_number_points());
  for (int k = 0; k < 2; ++k) { Mat31 x = pt("Xa", k); r.plane_push_back_point(10, 2 * k, x); } // more points after the summary
  v = r.print_evaluate(); for (size_t k = 0; k < v.size(); ++k) vf_out("w", k, 0, v[k]);
}
H H_ev33() { ev(3, 3); } H H_ev05() { ev(0, 5); } H H_ev52() { ev(5, 2); } H H_evi() { ev(4, 4, PlaneRegistration::INITIALIZE); } H H_evg() { ev(1, 4, PlaneRegistration::GRADIENT_BENGIOS_NAG); } H H_eva() { ev(4, 4, PlaneRegistration::GRADIENT_ALL_POSES); } H H_evc() { ev(2, 4, PlaneRegistration::GN_CLAMPED_HESSIAN); }
// distance to a ground truth that covers this problem, and possibly more
static void rmse(int n, int extra) {
  PR r; r.set_number_planes_and_poses(0, n); for (int k = 0; k < n; ++k) r.tr()[k] = pin(TN[k]);
  static const char *GN_[] = {"G0", "G1", "G2", "G3", "G4"}; std::vector<SE3> gt; for (int k = 0; k < n + extra; ++k) gt.push_back(pin(GN_[k]));
  for (int k = 0; k < n; ++k) { Mat61 d = (r.tr()[k] * gt[k].inv()).ln_vee(); for (int j = 0; j < 6; ++j) vf_out("d", k, j, d(j)); }
  vf_out("rmse", 0, 0, r.calculate_poses_rmse(gt)); vouti("gn", gt.size());
  for (int k = 0; k < n; ++k) { Mat4 m = r.get_trajectory(k).T(); for (int i = 0; i < 16; ++i) vf_out("m", k, i, m(i / 4, i % 4)); }
}
H H_rmse2() { rmse(2, 0); } H H_rmse3() { rmse(3, 0); } H H_rmse2x() { rmse(2, 3); }
// the second-order modes run the optimiser they name
static void mode(PlaneRegistration::SolveMode m) { PR r; r.set_number_planes_and_poses(0, 3); vouti("it", r.solve(m)); }
H H_mode_gn() { mode(PlaneRegistration::GN_HESSIAN); } H H_mode_s() { mode(PlaneRegistration::LM_SPHER); } H H_mode_e() { mode(PlaneRegistration::LM_ELLIP); }
// bad plane ids
H H_badplane() { PR r; r.set_number_planes_and_poses(1, 2); r.add_new_plane(4); Mat31 x = pt("P", 0); r.plane_push_back_point(5, 0, x); vouti("reached", 1); }
H H_goodplane() { PR r; r.set_number_planes_and_poses(1, 2); r.add_new_plane(4); Mat31 x = pt("P", 0); r.plane_push_back_point(4, 1, x); vouti("reached", 1); vouti("n", r.calculate_total_number_points()); }
H H_badplane0() { PR r; r.set_number_planes_and_poses(1, 2); Mat31 x = pt("P", 0); r.plane_push_back_point(0, 0, x); vouti("reached", 1); }
H H_badplane_old() { PR r; r.set_number_planes_and_poses(1, 2); r.add_new_plane(4); r.set_number_planes_and_poses(1, 2); Mat31 x = pt("P", 0); r.plane_push_back_point(4, 0, x); vouti("reached", 1); }
