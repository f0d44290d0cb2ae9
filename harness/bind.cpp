// Applies every name exported to Python to abstract arguments and, next to it, the native operation it stands for.
#include <pybind11/pybind11.h>
#include "mrob/SE3.hpp"
#include "mrob/SO3.hpp"
#include "mrob/SE3cov.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#include "mrob/create_points.hpp"
#include "vf.hpp"
using namespace mrob;
using namespace pymock;
namespace pymock { Up ups[64]; int nups; int view_seen; Fn *first_, *last_; Val *vals_; }
extern "C" void pymock_module(pybind11::module_ &);
static void boot() { pybind11::module_ m(""); pymock_module(m); }
static bool is(const char *scope, const char *name, const char *full) { // full = scope.name
  if (*scope) { for (; *scope; ++scope, ++full) if (*scope != *full) return false; if (*full++ != '.') return false; }
  for (; *name; ++name, ++full) if (*name != *full) return false; return !*full;
}
static int cnt; // running number of the compared value
static Any vcall(const char *full, Any *a, int n) {
  vf_event(full, cnt, 0);
  for (Fn *f = first_; f; f = f->next) if (is(f->scope, f->name, full) && n <= f->n) {
    Any b[20]; for (int i = 0; i < n; ++i) b[i] = a[i]; bool ok = true; int off = f->method ? 1 : 0;
    for (int i = n; i < f->n; ++i) { if (i - off < 0 || !f->hasdef[i - off]) { ok = false; break; } b[i] = f->def[i - off]; }
    if (!ok) continue;
    view_seen = 0; Any r = f->inv(f, b, &ok); if (!ok) continue;
    if (view_seen) vf_outi("view", cnt, 0, view_seen);
    return r;
  }
  vf_outi("missing", cnt, 0, 1); return Any();
}
template <class... A> static Any call(const char *full, A... a) { Any v[] = {Any(), a...}; return vcall(full, v + 1, sizeof...(A)); }
static const char *nm(const char *p, int k, const char *q) { char *s = new char[40]; char *d = s; for (; *p; ++p) *d++ = *p; if (k >= 0) { if (k >= 100) *d++ = '0' + k / 100; if (k >= 10) *d++ = '0' + k / 10 % 10; *d++ = '0' + k % 10; } for (; *q; ++q) *d++ = *q; *d = 0; return s; }
static void put(const char *p, int k, const Any &a) {
  const char *n = nm(p, k, "");
  if (a.kind == NUM) { if (a.t == id<long>()) vf_outi(n, 0, 0, *(long *)a.p); else vf_out(n, 0, 0, *(double *)a.p); }
  else if (a.kind == ARR) { Arr &q = *(Arr *)a.p; vf_outi(n, 1000, 0, q.m.rows()); vf_outi(n, 1000, 1, q.m.cols()); vout(n, q.m); }
  else if (a.kind == LIST) { List &l = *(List *)a.p; vf_outi(n, 1001, 0, l.size()); for (size_t i = 0; i < l.size(); ++i) put(nm(n, -1, "_"), i, l[i]); }
  else if (a.kind == ENUM) vf_outi(n, 1003, 0, *(long *)a.p);
  else if (a.kind == OBJ) {
    if (a.t == id<SE3Cov>()) { SE3Cov &s = *(SE3Cov *)a.p; vf_outi(n, 1002, 0, 2); vout(n, MatX(s.T())); vout(nm(n, -1, "_cov"), s.cov()); }
    else if (a.t == id<SE3>()) { vf_outi(n, 1002, 0, 1); vout(n, MatX(((SE3 *)a.p)->T())); }
    else if (a.t == id<SO3>()) { vf_outi(n, 1002, 0, 3); vout(n, MatX(((SO3 *)a.p)->R())); }
    else vf_outi(n, 1002, 0, 9);
  } else vf_outi(n, 1004, 0, 0);
}
template <class T> static Any A(const T &v) { return out<T>::by(v, Pol::copy, false); }
static void eq(const Any &b, const Any &r) { put("b", cnt, b); put("r", cnt, r); ++cnt; }
template <class T> static void eqv(const Any &b, const T &r) { eq(b, A(r)); }
static Nd ind(const char *n, int r, int c = 1) { Nd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = vf_in(n, i, j); return m; }
static Any in2(const char *n, int r, int c) { return arr(ind(n, r, c)); }
static Any in1(const char *n, int r) { return arr(ind(n, r), 1); }
static SE3 pose(const char *n) { Mat4 m = ind(n, 4, 4); return SE3(m); }
static SO3 rotn(const char *n) { Mat3 m = ind(n, 3, 3); return SO3(m); }
static Mat6 sym6(const char *n) { Mat6 m; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m(i, j) = vf_in(n, i < j ? i : j, i < j ? j : i); return m; }
template <class T> static T &the(const Any &a) { return *(T *)a.p; }
static Fn *find(const char *full) { for (Fn *f = first_; f; f = f->next) if (is(f->scope, f->name, full)) return f; return 0; }
static int overloads(const char *full) { int n = 0; for (Fn *f = first_; f; f = f->next) if (is(f->scope, f->name, full)) ++n; return n; }
// default of argument i (after self); a name split into several overloads has no annotations to compare
static Any dflt(const char *full, int i, const Any &ref) { vf_event(full, cnt, 1 + i); Fn *f = find(full); if (!f) { vf_outi("missing", cnt, 0, 1); return Any(); } if (overloads(full) > 1) return ref; return f->hasdef[i] ? f->def[i] : Any(); }
static void same_default(const char *full, int i, const Any &ref) { eq(dflt(full, i, ref), ref); }
// a keyword that exists must stand for the documented argument
static bool streq(const char *a, const char *b) { for (; *a && *a == *b; ++a, ++b); return *a == *b; }
static void kw(const char *full, std::initializer_list<const char *> names) {
  vf_event(full, cnt, 50); Fn *f = find(full); long bad = 0; int i = 0;
  if (f) for (const char *n : names) { for (int j = 0; j < f->nargs; ++j) if (f->argn[j] && streq(f->argn[j], n) && j != i) bad = i + 1; ++i; }
  eq(inum(bad), inum(0));
}
static Any ev(const char *scope, const char *name) { vf_event(name, cnt, 51); for (Val *v = vals_; v; v = v->next) if (streq(v->scope, scope) && streq(v->name, name)) return inum(v->v); vf_outi("missing", cnt, 0, 1); return Any(); }
#define G "geometry."
H H_py_se3() {
  boot(); SE3 s = pose("S0"), o = pose("S1"), e; Any a = obj(s), b = obj(o); Mat31 p = ind("p", 3); Mat61 x = ind("x", 6); MatX P = ind("P", 4, 3);
  eqv(call(G "SE3.__init__"), SE3()); eqv(call(G "SE3.__init__", in2("M", 4, 4)), SE3(Mat4(ind("M", 4, 4)))); eqv(call(G "SE3.__init__", in1("x", 6)), SE3(x));
  eqv(call(G "SE3.__init__", a), s); eqv(call(G "SE3.__init__", obj(rotn("Q0")), in1("p", 3)), SE3(rotn("Q0"), p));
  eqv(call(G "SE3.T", a), MatX(s.T())); eqv(call(G "SE3.R", a), Mat3(s.R())); eqv(call(G "SE3.t", a), Mat31(s.t())); eqv(call(G "SE3.mul", a, b), s * o); eqv(call(G "SE3.__mul__", a, b), s * o);
  eqv(call(G "SE3.Ln", a), Mat61(s.ln_vee())); eqv(call(G "SE3.transform", a, in1("p", 3)), Mat31(s.transform(p))); eqv(call(G "SE3.transform_array", a, in2("P", 4, 3)), MatX(s.transform_array(P)));
  eqv(call(G "SE3.inv", a), s.inv()); eqv(call(G "SE3.adj", a), Mat6(s.adj()));
  eqv(call(G "SE3.distance", a, b), s.distance(o)); eqv(call(G "SE3.distance_rotation", a, b), s.distance_rotation(o)); eqv(call(G "SE3.distance_trans", a, b), s.distance_trans(o));
  eqv(call(G "SE3.distance", a), s.distance(e)); eqv(call(G "SE3.distance_rotation", a), s.distance_rotation(e)); eqv(call(G "SE3.distance_trans", a), s.distance_trans(e));
  eqv(call(G "isSE3", in2("M", 4, 4)), isSE3(Mat4(ind("M", 4, 4))));
  eq(a, A(s)); eq(b, A(o)); // no query changes its operands
}
H H_py_se3u() {
  boot(); Mat61 x = ind("x", 6); SE3 s = pose("S0"), l = s, r = s; l.update_lhs(x); r.update_rhs(x); Any a;
  a = obj(s); eq(call(G "SE3.update", a, in1("x", 6)), Any()); eqv(a, l); a = obj(s); eq(call(G "SE3.update_lhs", a, in1("x", 6)), Any()); eqv(a, l); a = obj(s); eq(call(G "SE3.update_rhs", a, in1("x", 6)), Any()); eqv(a, r);
  // a copy is independent of its source
  a = obj(s); Any c = call(G "SE3.__init__", a); call(G "SE3.update", c, in1("x", 6)); eqv(a, s); eqv(c, l);
  Any d = call(G "SE3.T", a), R = call(G "SE3.R", a), t = call(G "SE3.t", a); call(G "SE3.update", a, in1("x", 6)); eqv(d, MatX(s.T())); eqv(R, Mat3(s.R())); eqv(t, Mat31(s.t())); eqv(call(G "SE3.T", a), MatX(l.T()));
}
H H_py_so3() {
  boot(); SO3 s = rotn("Q0"), o = rotn("Q1"); Any a = obj(s), b = obj(o); Mat31 w = ind("w", 3), p = ind("p", 3);
  eqv(call(G "SO3.__init__"), SO3()); eqv(call(G "SO3.__init__", in1("w", 3)), SO3(w)); eqv(call(G "SO3.__init__", in2("Q0", 3, 3)), s); eqv(call(G "SO3.__init__", a), s);
  eqv(call(G "SO3.R", a), Mat3(s.R())); eqv(call(G "SO3.mul", a, b), s.mul(o)); eqv(call(G "SO3.Ln", a), Mat31(s.ln_vee())); eqv(call(G "SO3.inv", a), s.inv()); eqv(call(G "SO3.adj", a), Mat3(s.adj())); eqv(call(G "SO3.distance", a, b), s.distance(o));
  eqv(call(G "isSO3", in2("M", 3, 3)), isSO3(Mat3(ind("M", 3, 3))));
  eq(a, A(s)); eq(b, A(o));
  eqv(call(G "hat3", in1("w", 3)), Mat3(hat3(w))); eqv(call(G "hat6", in1("x", 6)), Mat4(hat6(Mat61(ind("x", 6)))));
  eqv(call(G "quat_to_so3", in1("q", 4)), quat_to_so3(Mat41(ind("q", 4)))); eqv(call(G "so3_to_quat", in2("Q0", 3, 3)), Mat41(so3_to_quat(Mat3(ind("Q0", 3, 3))))); eqv(call(G "rpy_to_so3", in1("w", 3)), rpy_to_so3(w));
  eqv(call(G "curley_wedge", in1("x", 6)), Mat6(curly_wedge(Mat61(ind("x", 6)))));
}
H H_py_so3u() {
  boot(); Mat31 w = ind("w", 3); SO3 s = rotn("Q0"), l = s, r = s; l.update_lhs(w); r.update_rhs(w); Any a;
  a = obj(s); eq(call(G "SO3.update", a, in1("w", 3)), Any()); eqv(a, l); a = obj(s); eq(call(G "SO3.update_lhs", a, in1("w", 3)), Any()); eqv(a, l); a = obj(s); eq(call(G "SO3.update_rhs", a, in1("w", 3)), Any()); eqv(a, r);
  a = obj(s); Any R = call(G "SO3.R", a), c = call(G "SO3.__init__", a); call(G "SO3.update", a, in1("w", 3)); eqv(R, Mat3(s.R())); eqv(c, s); eqv(call(G "SO3.R", a), Mat3(l.R()));
}
H H_py_cov() {
  boot(); Mat6 S = sym6("C0"), U = sym6("C1"); SE3 p = pose("S0"), q = pose("S1"); SE3Cov a(p, S), b(q, U); Any x = obj(a), y = obj(b), z = obj(q), u = arr(Nd(U));
  eqv(call(G "SE3Cov.__init__"), SE3Cov()); eqv(call(G "SE3Cov.__init__", obj(p), arr(Nd(S))), a); eqv(call(G "SE3Cov.__init__", x), a); eqv(call(G "SE3Cov.cov", x), Mat6(a.cov()));
  eqv(call(G "SE3Cov.compound_2nd_order", x, y), a.compound_2nd_order(b)); eqv(call(G "SE3Cov.compound_2nd_order", x, z, u), a.compound_2nd_order(q, U));
  eqv(call(G "SE3Cov.mul", x, y), a.mul(b)); eqv(call(G "SE3Cov.__mul__", x, y), a * b);
  eq(x, A(a)); eq(y, A(b)); eqv(call(G "SE3.T", x), MatX(a.T())); eqv(call(G "SE3.Ln", x), Mat61(p.ln_vee()));
}
H H_py_cov4() {
  boot(); Mat6 S = sym6("C0"), U = sym6("C1"); SE3 p = pose("S0"), q = pose("S1"); SE3Cov a(p, S), b(q, U); Any x = obj(a), y = obj(b), z = obj(q), u = arr(Nd(U));
  eqv(call(G "SE3Cov.compound_4th_order", x, y), a.compound_4th_order(b)); eqv(call(G "SE3Cov.compound_4th_order", x, z, u), a.compound_4th_order(q, U)); eq(x, A(a)); eq(y, A(b));
}
// ---- registration
#define R "registration."
H H_py_reg() {
  boot(); MatX X = ind("X", 4, 3), Y = ind("Y", 4, 3); SE3 s; PCRegistration::arun(X, Y, s); eqv(call(R "arun", in2("X", 4, 3), in2("Y", 4, 3)), s);
  eqv(call(R "estimate_plane", in2("X", 4, 3)), Mat41(estimate_plane(X))); eqv(call(R "estimate_normal", in2("X", 4, 3)), Mat31(estimate_normal(X))); eqv(call(R "estimate_centroid", in2("X", 4, 3)), Mat31(estimate_centroid(X)));
}
H H_py_gicp() { boot(); MatX X = ind("X", 3, 3), Y = ind("Y", 3, 3), a = ind("cx", 9, 3), b = ind("cy", 9, 3); SE3 s; PCRegistration::gicp(X, Y, a, b, s); eqv(call(R "gicp", in2("X", 3, 3), in2("Y", 3, 3), in2("cx", 9, 3), in2("cy", 9, 3)), s); }
H H_py_wp() { boot(); MatX X = ind("X", 4, 3), Y = ind("Y", 4, 3); MatX1 w = ind("w", 4); SE3 s; PCRegistration::weighted_point(X, Y, w, s); eqv(call(R "weighted", in2("X", 4, 3), in2("Y", 4, 3), in1("w", 4)), s); }
// ---- planes
#define PRG R "PlaneRegistration."
typedef PlaneRegistration PR; typedef PR::SolveMode SM;
static const char *PT[] = {"P0", "P1", "P2"};
static void data(const Any &a, PR &n, int poses) {
  eq(call(PRG "set_number_planes_and_poses", a, inum(3), inum(poses)), Any()); n.set_number_planes_and_poses(3, poses);
  static const int ids[] = {4, 9, 2};
  for (int q = 0; q < 3; ++q) { call(PRG "add_plane", a, inum(ids[q])); n.add_new_plane(ids[q]); for (int k = 0; k < 4; ++k) { Mat31 p; for (int j = 0; j < 3; ++j) p(j) = vf_in(PT[q], k, j); call(PRG "plane_push_back_point", a, inum(ids[q]), inum((q + k) % poses), arr(Nd(p), 1)); n.plane_push_back_point(ids[q], (q + k) % poses, p); } }
}
static void cmp(const Any &a, PR &n) { eqv(call(PRG "get_number_poses", a), n.get_number_poses()); eqv(call(PRG "get_last_pose", a), n.get_last_pose()); for (uint_t t = 0; t < n.get_number_poses(); ++t) { eqv(call(PRG "get_trajectory", a, inum(t)), n.get_trajectory(t)); eqv(call(PRG "get_point_cloud", a, inum(t)), n.get_point_cloud(t)); } eqv(call(PRG "get_error", a), n.get_current_error()); }
H H_py_pr() {
  boot(); Any a = call(PRG "__init__"); PR n; data(a, n, 3); cmp(a, n);
  eq(call(PRG "initialize_last_pose_solution", a, obj(pose("S0"))), Any()); SE3 L = pose("S0"); n.set_last_pose(L); cmp(a, n);
  eq(call(PRG "reset_solution", a), Any()); n.reset_solution(); cmp(a, n);
}
static void solve(SM m, int poses) { boot(); Any a = call(PRG "__init__"); PR n; data(a, n, poses); eqv(call(PRG "solve", a, enm(m), inum(1)), n.solve(m, true)); cmp(a, n);
  Any e = call(PRG "print_evaluate", a); std::vector<double> v = n.print_evaluate(); List &l = *(List *)e.p; eq(inum(l.size()), inum(13)); for (int k = 0; k < 13; ++k) if (k != 4) eq(l[k], num(v[k])); }
H H_py_pr_nag() { solve(SM::GRADIENT_BENGIOS_NAG, 2); }
H H_py_pr_all() { solve(SM::GRADIENT_ALL_POSES, 2); }
H H_py_pr_ini() { solve(SM::INITIALIZE, 2); }
H H_py_pr_def() {
  boot(); same_default(PRG "solve", 0, enm(SM::GRADIENT_BENGIOS_NAG)); same_default(PRG "solve", 1, inum(0)); same_default(PRG "print", 0, inum(0)); kw(PRG "solve", {"mode", "singleIteration"});
  eq(ev("registration", "INITIALIZE"), inum(SM::INITIALIZE)); eq(ev("registration", "GRADIENT_BENGIOS_NAG"), inum(SM::GRADIENT_BENGIOS_NAG)); eq(ev("registration", "GRADIENT_ALL_POSES"), inum(SM::GRADIENT_ALL_POSES)); eq(ev("registration", "GN_HESSIAN"), inum(SM::GN_HESSIAN));
  eq(ev("registration", "GN_CLAMPED_HESSIAN"), inum(SM::GN_CLAMPED_HESSIAN)); eq(ev("registration", "LM_SPHER"), inum(SM::LM_SPHER)); eq(ev("registration", "LM_ELLIP"), inum(SM::LM_ELLIP));
}
extern "C" int vf_draws; int vf_draws;
H H_py_scene() {
  boot(); vf_draws = 0; Any a = call(R "CreatePoints.__init__", inum(5), inum(2), inum(3), num(vf_in("noise", 0, 0)), num(vf_in("bias", 0, 0))); int d = vf_draws; vf_draws = 0; CreatePoints n(5, 2, 3, vf_in("noise", 0, 0), vf_in("bias", 0, 0)); eq(inum(d), inum(vf_draws));
  for (int t = 0; t < 3; ++t) { eqv(call(R "CreatePoints.get_point_cloud", a, inum(t)), n.get_point_cloud(t)); eqv(call(R "CreatePoints.get_point_plane_ids", a, inum(t)), n.get_point_plane_ids(t)); eqv(call(R "CreatePoints.get_trajectory", a, inum(t)), n.get_ground_truth_pose(t)); }
  eqv(call(R "CreatePoints.get_ground_truth_last_pose", a), n.get_ground_truth_last_pose());
  Any r = call(PRG "__init__"); PR q; eq(call(R "CreatePoints.create_plane_registration", a, r), Any()); n.create_plane_registration(q); cmp(r, q);
}
// ---- graph
typedef std::shared_ptr<Node> NP; typedef std::shared_ptr<Factor> FP; typedef Factor::robustFactorType RT; typedef Node::nodeMode NM;
static const char *FGS[] = {"FGraph.number_nodes", "FGraph.number_factors"};
struct Two {
  Any a; FGraphSolve n; RT k;
  Two(RT k, bool dflt = false) : n(FGraphSolve::ADJ), k(k) { boot(); a = dflt ? call("FGraph.__init__") : call("FGraph.__init__", enm(k)); }
  FGraphSolve &py() { return *(FGraphSolve *)as(a, id<FGraphSolve>()); }
  void node(const Any &r, Node *p) { NP q(p); n.add_node(q); eqv(r, q->get_id()); }
  void factor(const Any &r, Factor *p, bool ret = true) { FP q(p); n.add_factor(q); if (ret) eqv(r, q->get_id()); else eq(r, Any()); }
  NP &at(int i) { return n.get_node(i); }
  void same() { vf_event("contents of the graph", cnt, 0); // both graphs hold the same variables and measurements
    FGraphSolve &p = py(); eqv(call(FGS[0], a), n.number_nodes()); eqv(call(FGS[1], a), n.number_factors()); eqv(A(p.get_dimension_state()), n.get_dimension_state()); eqv(A(p.get_dimension_obs()), n.get_dimension_obs()); eqv(A((int)p.get_build_matrix_method()), (int)n.get_build_matrix_method());
    for (uint_t i = 0; i < n.number_nodes(); ++i) { eqv(A(MatX(p.get_node(i)->get_state())), MatX(n.get_node(i)->get_state())); eqv(A((int)p.get_node(i)->get_node_mode()), (int)n.get_node(i)->get_node_mode()); eqv(A(p.get_node(i)->get_dim()), n.get_node(i)->get_dim()); }
    for (uint_t i = 0; i < n.number_factors(); ++i) { Factor &f = *p.get_factor(i), &g = *n.get_factor(i); f.evaluate_residuals(); f.evaluate_jacobians(); f.evaluate_chi2(); g.evaluate_residuals(); g.evaluate_jacobians(); g.evaluate_chi2();
      eqv(A(MatX(f.get_obs())), MatX(g.get_obs())); eqv(A(MatX(f.get_residual())), MatX(g.get_residual())); eqv(A(MatX(f.get_jacobian())), MatX(g.get_jacobian())); eqv(A(MatX(f.get_information_matrix())), MatX(g.get_information_matrix())); eqv(A(f.get_chi2()), g.get_chi2()); eqv(A(f.evaluate_robust_weight(vf_in("u", 0, 0))), g.evaluate_robust_weight(vf_in("u", 0, 0)));
      eqv(A(f.get_neighbour_nodes()->size()), g.get_neighbour_nodes()->size()); for (size_t q = 0; q < f.get_neighbour_nodes()->size(); ++q) eqv(A((*f.get_neighbour_nodes())[q]->get_id()), (*g.get_neighbour_nodes())[q]->get_id()); }
  }
};
#define N3 Mat31
static Mat31 v3(const char *n) { return ind(n, 3); } static Mat21 v2(const char *n) { return ind(n, 2); } static Mat41 v4(const char *n) { return ind(n, 4); }
static Mat3 m3(const char *n) { return ind(n, 3, 3); } static Mat2 m2(const char *n) { return ind(n, 2, 2); } static Mat4 m4(const char *n) { return ind(n, 4, 4); } static Mat6 m6(const char *n) { return ind(n, 6, 6); }
static void g2(RT k, bool upd, bool rev) {
  Two t(k, k == RT::QUADRATIC && upd); int o = rev ? 2 : 0, d = rev ? 0 : 2;
  t.node(call("FGraph.add_node_pose_2d", t.a, in1("x0", 3)), new NodePose2d(v3("x0"), NM::STANDARD)); t.node(call("FGraph.add_node_pose_2d", t.a, in1("x1", 3), enm(NM::ANCHOR)), new NodePose2d(v3("x1"), NM::ANCHOR));
  t.node(call("FGraph.add_node_pose_2d", t.a, in1("x2", 3), enm(NM::SCHUR_MARGI)), new NodePose2d(v3("x2"), NM::SCHUR_MARGI)); t.node(call("FGraph.add_node_landmark_2d", t.a, in1("l0", 2)), new NodeLandmark2d(v2("l0"), NM::STANDARD)); t.node(call("FGraph.add_node_landmark_2d", t.a, in1("l1", 2), enm(NM::ANCHOR)), new NodeLandmark2d(v2("l1"), NM::ANCHOR));
  t.factor(call("FGraph.add_factor_1pose_2d", t.a, in1("z0", 3), inum(1), in2("W0", 3, 3)), new Factor1Pose2d(v3("z0"), t.at(1), m3("W0"), k), false);
  t.factor(call("FGraph.add_factor_2poses_2d", t.a, in1("z1", 3), inum(o), inum(d), in2("W1", 3, 3)), new Factor2Poses2d(v3("z1"), t.at(o), t.at(d), m3("W1"), false, k), false);
  if (upd) t.factor(call("FGraph.add_factor_2poses_2d", t.a, in1("z2", 3), inum(o), inum(d), in2("W2", 3, 3), inum(1)), new Factor2Poses2d(v3("z2"), t.at(o), t.at(d), m3("W2"), true, k), false);
  t.factor(call("FGraph.add_factor_2poses_2d_odom", t.a, in1("z3", 3), inum(0), inum(1), in2("W3", 3, 3)), new Factor2Poses2dOdom(v3("z3"), t.at(0), t.at(1), m3("W3"), true, k), false);
  t.factor(call("FGraph.add_factor_1pose_1landmark_2d", t.a, in1("y0", 2), inum(0), inum(3), in2("V0", 2, 2)), new Factor1Pose1Landmark2d(v2("y0"), t.at(0), t.at(3), m2("V0"), false, k));
  if (upd) t.factor(call("FGraph.add_factor_1pose_1landmark_2d", t.a, in1("y1", 2), inum(1), inum(4), in2("V1", 2, 2), inum(1)), new Factor1Pose1Landmark2d(v2("y1"), t.at(1), t.at(4), m2("V1"), true, k));
  t.same();
}
H H_py_g2a() { g2(RT::QUADRATIC, false, false); }
H H_py_g2b() { g2(RT::HUBER, true, false); }
H H_py_g2c() { g2(RT::CAUCHY, false, true); }
H H_py_g2d() { g2(RT::MCCLURE, false, false); }
H H_py_g2e() { g2(RT::RANSAC, true, true); }
H H_py_g2f() { g2(RT::QUADRATIC, true, false); }
static void g3(RT k, bool upd) {
  Two t(k); Any a = t.a;
  t.node(call("FGraph.add_node_pose_3d", a, obj(pose("S0"))), new NodePose3d(pose("S0"), NM::STANDARD)); t.node(call("FGraph.add_node_pose_3d", a, obj(pose("S1")), enm(NM::ANCHOR)), new NodePose3d(pose("S1"), NM::ANCHOR));
  t.node(call("FGraph.add_node_landmark_3d", a, in1("l0", 3)), new NodeLandmark3d(v3("l0"), NM::STANDARD)); t.node(call("FGraph.add_node_landmark_3d", a, in1("l1", 3), enm(NM::ANCHOR)), new NodeLandmark3d(v3("l1"), NM::ANCHOR));
  t.node(call("FGraph.add_node_plane_4d", a, in1("n0", 4)), new NodePlane4d(v4("n0"), NM::STANDARD)); t.node(call("FGraph.add_node_plane_4d", a, in1("n1", 4), enm(NM::ANCHOR)), new NodePlane4d(v4("n1"), NM::ANCHOR));
  t.factor(call("FGraph.add_factor_1pose_3d", a, obj(pose("S2")), inum(1), in2("W0", 6, 6)), new Factor1Pose3d(pose("S2"), t.at(1), m6("W0"), k));
  if (upd) t.factor(call("FGraph.add_factor_2poses_3d", a, obj(pose("S3")), inum(0), inum(1), in2("W1", 6, 6), inum(1)), new Factor2Poses3d(pose("S3"), t.at(0), t.at(1), m6("W1"), true, k));
  else t.factor(call("FGraph.add_factor_2poses_3d", a, obj(pose("S3")), inum(1), inum(0), in2("W1", 6, 6)), new Factor2Poses3d(pose("S3"), t.at(1), t.at(0), m6("W1"), false, k));
  t.factor(call("FGraph.add_factor_1pose_1landmark_3d", a, in1("y0", 3), inum(0), inum(2), in2("V0", 3, 3)), new Factor1Pose1Landmark3d(v3("y0"), t.at(0), t.at(2), m3("V0"), false, k));
  if (upd) t.factor(call("FGraph.add_factor_1pose_1landmark_3d", a, in1("y1", 3), inum(1), inum(3), in2("V1", 3, 3), inum(1)), new Factor1Pose1Landmark3d(v3("y1"), t.at(1), t.at(3), m3("V1"), true, k));
  t.factor(call("FGraph.add_factor_1pose_1plane_4d", a, in1("o0", 4), inum(0), inum(4), in2("U0", 4, 4)), new Factor1Pose1Plane4d(v4("o0"), t.at(0), t.at(4), m4("U0"), k));
  t.factor(call("FGraph.add_factor_1pose_point2plane", a, in1("px", 3), in1("py", 3), in1("pn", 3), inum(1), in2("I0", 1, 1)), new Factor1PosePoint2Plane(v3("px"), v3("py"), v3("pn"), t.at(1), Mat1(ind("I0", 1, 1)), k));
  t.same();
}
H H_py_g3a() { g3(RT::QUADRATIC, true); }
H H_py_g3b() { g3(RT::MCCLURE, false); }
static void sv(int how) { // a small problem solved through both interfaces
  Two t(RT::CAUCHY); Any a = t.a;
  t.node(call("FGraph.add_node_landmark_2d", a, in1("l0", 2)), new NodeLandmark2d(v2("l0"), NM::STANDARD)); t.node(call("FGraph.add_node_pose_2d", a, in1("x0", 3), enm(NM::ANCHOR)), new NodePose2d(v3("x0"), NM::ANCHOR));
  t.factor(call("FGraph.add_factor_1pose_1landmark_2d", a, in1("y0", 2), inum(1), inum(0), in2("V0", 2, 2)), new Factor1Pose1Landmark2d(v2("y0"), t.at(1), t.at(0), m2("V0"), false, RT::CAUCHY));
  eqv(call("FGraph.chi2", a), t.n.chi2());
  if (how == 0) { eq(call("FGraph.solve", a), Any()); t.n.solve(FGraphSolve::GN); }
  if (how == 1) { eq(call("FGraph.solve", a, enm(FGraphSolve::GN), inum(7), num(0.5), num(0.25)), Any()); t.n.solve(FGraphSolve::GN, 7, 0.5, 0.25); }
  if (how == 2) { eq(call("FGraph.solve", a, enm(FGraphSolve::LM), inum(1), num(0.5), num(0.25)), Any()); t.n.solve(FGraphSolve::LM, 1, 0.5, 0.25); }
  eqv(call("FGraph.get_estimated_state", a), t.n.get_estimated_state()); eqv(call("FGraph.get_chi2_array", a), MatX1(t.n.get_chi2_array())); eqv(call("FGraph.get_information_matrix", a), t.n.get_information_matrix()); eqv(call("FGraph.get_adjacency_matrix", a), t.n.get_adjacency_matrix()); eqv(call("FGraph.get_W_matrix", a), t.n.get_W_matrix()); eqv(call("FGraph.get_vector_b", a), MatX1(t.n.get_vector_b()));
  eqv(call("FGraph.chi2", a, inum(0)), t.n.chi2(false)); eqv(call("FGraph.chi2", a, inum(1)), t.n.chi2(true)); eqv(call("FGraph.number_nodes", a), t.n.number_nodes()); eqv(call("FGraph.number_factors", a), t.n.number_factors());
}
H H_py_sv0() { sv(0); }
H H_py_sv1() { sv(1); }
H H_py_sv2() { sv(2); }
H H_py_def() {
  boot();
  same_default("FGraph.solve", 0, enm(FGraphSolve::GN)); same_default("FGraph.solve", 1, inum(30)); same_default("FGraph.solve", 2, num(1e-6)); same_default("FGraph.solve", 3, num(1e-2)); same_default("FGraph.chi2", 0, inum(1)); same_default("FGraph.print", 0, inum(0));
  kw("FGraph.solve", {"method", "maxIters", "lambda", "solutionTolerance"}); kw("FGraph.add_factor_2poses_2d", {"obs", "nodeOriginId", "nodeTargetId", "obsInvCov", "updateNodeTarget"}); kw("FGraph.add_factor_2poses_2d_odom", {"obs", "nodeOriginId", "nodeTargetId", "obsInvCov"}); kw("FGraph.add_factor_2poses_3d", {"obs", "nodeOridingId", "nodeTargetId", "obsInvCov", "updateNodeTarget"});
  kw("FGraph.add_factor_1pose_1landmark_2d", {"obs", "nodePoseId", "nodeLandmarkId", "obsInvCov", "initializeLandmark"}); kw("FGraph.add_factor_1pose_1landmark_3d", {"obs", "nodePoseId", "nodeLandmarkId", "obsInvCov", "initializeLandmark"}); kw("FGraph.add_factor_1pose_1plane_4d", {"obs", "nodePoseId", "nodeLandmarkId", "obsInvCov"}); kw("FGraph.add_factor_1pose_point2plane", {"z_point_x", "z_point_y", "z_normal_y", "nodePoseId", "obsInf"});
  kw("FGraph.add_node_pose_2d", {"x", "mode"}); kw("FGraph.add_node_pose_3d", {"x", "mode"});
  eq(ev("", "GN"), inum(FGraphSolve::GN)); eq(ev("", "LM"), inum(FGraphSolve::LM)); eq(ev("", "QUADRATIC"), inum(RT::QUADRATIC)); eq(ev("", "CAUCHY"), inum(RT::CAUCHY)); eq(ev("", "HUBER"), inum(RT::HUBER)); eq(ev("", "MCCLURE"), inum(RT::MCCLURE)); eq(ev("", "RANSAC"), inum(RT::RANSAC));
  eq(ev("", "NODE_STANDARD"), inum(NM::STANDARD)); eq(ev("", "NODE_ANCHOR"), inum(NM::ANCHOR)); eq(ev("", "NODE_SCHUR_MARGI"), inum(NM::SCHUR_MARGI));
  eq(ev("", "NEWTON_RAPHSON"), inum(Optimizer::NEWTON_RAPHSON)); eq(ev("", "LEVENBERG_MARQUARDT_SPHER"), inum(Optimizer::LEVENBERG_MARQUARDT_SPHER)); eq(ev("", "LEVENBERG_MARQUARDT_ELLIP"), inum(Optimizer::LEVENBERG_MARQUARDT_ELLIP));
}
// unknown ids in graph-building calls; a call that raises does not come back
static Any gb() { boot(); Any a = call("FGraph.__init__"); call("FGraph.add_node_pose_2d", a, in1("x0", 3)); call("FGraph.add_node_landmark_2d", a, in1("l0", 2)); call("FGraph.add_node_pose_3d", a, obj(pose("S0"))); call("FGraph.add_node_landmark_3d", a, in1("q0", 3)); call("FGraph.add_node_plane_4d", a, in1("n0", 4)); return a; }
#define BAD1(NM, CALL) static void bad_##NM(long k) { Any a = gb(); CALL; vf_outi("reached", 0, 0, 1); } H H_pb_##NM##_5() { bad_##NM(5); } H H_pb_##NM##_9() { bad_##NM(999); }
BAD1(1p2, call("FGraph.add_factor_1pose_2d", a, in1("z", 3), inum(k), in2("W", 3, 3)))
BAD1(2p2o, call("FGraph.add_factor_2poses_2d", a, in1("z", 3), inum(k), inum(0), in2("W", 3, 3)))
BAD1(2p2t, call("FGraph.add_factor_2poses_2d", a, in1("z", 3), inum(0), inum(k), in2("W", 3, 3), inum(1)))
BAD1(odo, call("FGraph.add_factor_2poses_2d_odom", a, in1("z", 3), inum(k), inum(0), in2("W", 3, 3)))
BAD1(odt, call("FGraph.add_factor_2poses_2d_odom", a, in1("z", 3), inum(0), inum(k), in2("W", 3, 3)))
BAD1(pl2p, call("FGraph.add_factor_1pose_1landmark_2d", a, in1("z", 2), inum(k), inum(1), in2("W", 2, 2)))
BAD1(pl2l, call("FGraph.add_factor_1pose_1landmark_2d", a, in1("z", 2), inum(0), inum(k), in2("W", 2, 2)))
BAD1(1p3, call("FGraph.add_factor_1pose_3d", a, obj(pose("S1")), inum(k), in2("W", 6, 6)))
BAD1(2p3o, call("FGraph.add_factor_2poses_3d", a, obj(pose("S1")), inum(k), inum(2), in2("W", 6, 6)))
BAD1(2p3t, call("FGraph.add_factor_2poses_3d", a, obj(pose("S1")), inum(2), inum(k), in2("W", 6, 6), inum(1)))
BAD1(pl3p, call("FGraph.add_factor_1pose_1landmark_3d", a, in1("z", 3), inum(k), inum(3), in2("W", 3, 3)))
BAD1(pl3l, call("FGraph.add_factor_1pose_1landmark_3d", a, in1("z", 3), inum(2), inum(k), in2("W", 3, 3)))
BAD1(ppp, call("FGraph.add_factor_1pose_1plane_4d", a, in1("z", 4), inum(k), inum(4), in2("W", 4, 4)))
BAD1(ppl, call("FGraph.add_factor_1pose_1plane_4d", a, in1("z", 4), inum(2), inum(k), in2("W", 4, 4)))
BAD1(p2p, call("FGraph.add_factor_1pose_point2plane", a, in1("px", 3), in1("py", 3), in1("pn", 3), inum(k), in2("I", 1, 1)))
BAD1(plane, a = call(PRG "__init__"); call(PRG "set_number_planes_and_poses", a, inum(3), inum(2)); call(PRG "add_plane", a, inum(1)); call(PRG "plane_push_back_point", a, inum(k), inum(0), in1("z", 3)))
