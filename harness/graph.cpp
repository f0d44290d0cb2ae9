#include "mrob/factor_graph.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/optimizer.hpp"
#include "vf.hpp"
#include "names.hpp"
#include <memory>
extern "C" void vf_opaque(const char *, const double *, int, double *, int);
using namespace mrob;
typedef std::shared_ptr<Node> NP; typedef std::shared_ptr<Factor> FP;
static MatX in_(const char *n, int r, int c = 1) { MatX m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = vf_in(n, i, j); return m; }
struct VN : public Node { // a variable with additive update, any dimension
  MatX s, a;
  VN(const char *n, const char *an, int d, Node::nodeMode m = Node::STANDARD) : Node(d, m), s(in_(n, d)), a(in_(an, d)) {}
  void update(const Eigen::Ref<const MatX1> &dx) override { s += dx; }
  void update_from_auxiliary(const Eigen::Ref<const MatX1> &dx) override { s = a + dx; }
  void set_state(const Eigen::Ref<const MatX> &x) override { s = x; }
  void set_auxiliary_state(const Eigen::Ref<const MatX> &x) override { a = x; }
  const Eigen::Ref<const MatX> get_state() const override { return s; }
  const Eigen::Ref<const MatX> get_auxiliary_state() const override { return a; }
};
struct VF : public Factor { // a measurement with uninterpreted residual, Jacobian and error
  int k; MatX o, W, J, c; MatX1 r;
  static const char *nm(int t, int k) { return t == 0 ? nRES[k] : t == 1 ? nJAC[k] : nCHI[k]; }
  static const char *wn(int k) { return nW[k]; }
  VF(int k, int dim, std::initializer_list<NP> ns, Factor::robustFactorType t) : Factor(dim, alld(ns), t), k(k), o(in_("obs", dim)), W(in_(wn(k), dim, dim)), J(in_("staleJ", dim, alld(ns))), c(alld(ns), 1), r(in_("staler", dim)) { for (auto &n : ns) neighbourNodes_.push_back(n); c.setZero(); chi2_ = vf_in("stalechi", 0, 0); }
  static int alld(std::initializer_list<NP> ns) { int d = 0; for (auto &n : ns) d += n->get_dim(); return d; }
  MatX cur() const { MatX x(allNodesDim_, 1); int p = 0; for (auto &n : neighbourNodes_) { x.block(p, 0, n->get_dim(), 1) = n->get_state(); p += n->get_dim(); } return x; }
  void evaluate_residuals() override { c = cur(); vf_opaque(nm(0, k), c.data(), c.size(), r.data(), r.size()); }
  void evaluate_jacobians() override {
    MatX in(2 * c.size(), 1); in << c, cur(); Eigen::Matrix<double, -1, -1, Eigen::RowMajor> j(dim_, allNodesDim_);
    vf_opaque(nm(1, k), in.data(), in.size(), j.data(), j.size()); J = j; vf_event("jac", k, 0); }
  void evaluate_chi2() override { double s; vf_opaque(nm(2, k), r.data(), r.size(), &s, 1); chi2_ = s * s; }
  const Eigen::Ref<const MatX> get_obs() const override { return o; }
  const Eigen::Ref<const MatX1> get_residual() const override { return r; }
  const Eigen::Ref<const MatX> get_information_matrix() const override { return W; }
  const Eigen::Ref<const MatX> get_jacobian() const override { return J; }
};
static const int D[] = {1, 2, 3, 2};
typedef Factor::robustFactorType RT;
static const RT KT[] = {RT::HUBER, RT::QUADRATIC, RT::CAUCHY, RT::MCCLURE, RT::RANSAC};
// nodes and measurements interleaved; mask: anchored nodes
struct Top { NP n[4]; FP f[5]; factor_id_t nid[4], fid[5]; int sd[4], od[5]; };
template <class G> static void build(G &g, int mask, Top &t) {
  for (int i = 0; i < 4; ++i) t.n[i] = NP(new VN(XN[i], AN[i], D[i], (mask >> i & 1) ? Node::ANCHOR : Node::STANDARD));
  auto an = [&](int i) { t.nid[i] = g.add_node(t.n[i]); t.sd[i] = g.get_dimension_state(); };
  auto af = [&](int k, Factor *p) { t.f[k] = FP(p); t.fid[k] = g.add_factor(t.f[k]); t.od[k] = g.get_dimension_obs(); };
  an(0); an(1); af(0, new VF(0, 2, {t.n[1]}, KT[0])); an(2); af(1, new VF(1, 3, {t.n[0], t.n[2]}, KT[1])); an(3);
  af(2, new VF(2, 2, {t.n[1], t.n[3]}, KT[2])); af(3, new VF(3, 3, {t.n[0], t.n[1], t.n[3]}, KT[3])); af(4, new VF(4, 2, {t.n[1], t.n[3]}, KT[4]));
}
static void states(const char *s, const char *a, Top &t) { static const char *dummy = 0; (void)dummy;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < D[i]; ++j) { vf_out(s, i, j, ((VN &)*t.n[i]).s(j)); vf_out(a, i, j, ((VN &)*t.n[i]).a(j)); } }
static void sp(const char *n, const SMatCol &m) { vf_outi(n, 5000, 0, m.rows()); vf_outi(n, 5000, 1, m.cols());
  if (m.rows() > 150) { vf_outi(n, 5001, 0, 1); for (int c = 0; c < m.outerSize(); ++c) for (SMatCol::InnerIterator it(m, c); it; ++it) vf_out(n, it.row(), it.col(), it.value()); } // the others are zero
  else { Eigen::MatrixXd d = m; vout(n, d); } }
static void mats(FGraphSolve &g, const char *A, const char *W, const char *L, const char *b) { sp(A, g.get_adjacency_matrix()); sp(W, g.get_W_matrix()); sp(L, g.get_information_matrix()); MatX1 v = g.get_vector_b(); vf_outi(b, 5000, 0, v.rows()); vout(b, v); }
static void gn(int mask) {
  FGraphSolve g; Top t; build(g, mask, t);
  for (int i = 0; i < 4; ++i) { vf_outi("nid", i, 0, t.nid[i]); vf_outi("ngid", i, 0, g.get_node(i)->get_id()); vf_outi("nsame", i, 0, g.get_node(i).get() == t.n[i].get()); vf_outi("sd", i, 0, t.sd[i]); vf_outi("nf", i, 0, t.n[i]->get_neighbour_factors()->size());
    auto *fl = t.n[i]->get_neighbour_factors(); for (size_t q = 0; q < fl->size(); ++q) vf_outi("nfid", i, q, (*fl)[q]->get_id()); }
  for (int k = 0; k < 5; ++k) { vf_outi("fid", k, 0, t.fid[k]); vf_outi("fgid", k, 0, g.get_factor(k)->get_id()); vf_outi("fsame", k, 0, g.get_factor(k).get() == t.f[k].get()); vf_outi("od", k, 0, t.od[k]); }
  vouti("nn", g.number_nodes()); vouti("nfac", g.number_factors());
  g.solve(FGraphSolve::GN); states("s1", "b1", t); mats(g, "A1", "W1", "L1", "v1");
  vouts("c_stored", g.chi2(false)); MatX1 c0 = g.get_chi2_array(); vout("arr0", c0); vouts("c_true", g.chi2(true)); vouts("c_again", g.chi2(false)); vouts("c_def", g.chi2()); MatX1 c1 = g.get_chi2_array(); vout("arr1", c1);
  auto e = g.get_estimated_state(); vouti("esz", e.size()); for (size_t i = 0; i < e.size(); ++i) { vf_outi("er", i, 0, e[i].rows()); vf_outi("ec", i, 0, e[i].cols()); for (int j = 0; j < e[i].size(); ++j) vf_out("est", i, j, e[i](j)); }
  for (auto &m : e) m.setZero(); // a copy: must not reach the graph
  states("sq", "bq", t);
  g.solve(FGraphSolve::GN); states("s2", "b2", t); mats(g, "A2", "W2", "L2", "v2");
  vouti("sdq", g.get_dimension_state()); vouti("odq", g.get_dimension_obs()); vouti("nn2", g.number_nodes());
}
H H_gn_0() { gn(0); } H H_gn_1() { gn(1); } H H_gn_2() { gn(2); } H H_gn_4() { gn(4); } H H_gn_8() { gn(8); } H H_gn_5() { gn(5); } H H_gn_9() { gn(9); } H H_gn_6() { gn(6); } H H_gn_10() { gn(10); } H H_gn_12() { gn(12); }
// adding between solves
H H_grow() {
  FGraphSolve g; Top t; t.n[0] = NP(new VN("x0", "a0", D[0])); t.n[1] = NP(new VN("x1", "a1", D[1], Node::ANCHOR)); t.n[2] = NP(new VN("x2", "a2", D[2])); t.n[3] = NP(new VN("x3", "a3", D[3]));
  g.add_node(t.n[0]); g.add_node(t.n[1]); t.f[0] = FP(new VF(0, 2, {t.n[0], t.n[1]}, RT::QUADRATIC)); g.add_factor(t.f[0]);
  g.solve(FGraphSolve::GN); states("s1", "b1", t); mats(g, "A1", "W1", "L1", "v1");
  g.add_node(t.n[2]); g.add_node(t.n[3]); t.f[1] = FP(new VF(1, 4, {t.n[2], t.n[3]}, RT::HUBER)); g.add_factor(t.f[1]); t.f[2] = FP(new VF(2, 2, {t.n[0], t.n[3]}, RT::CAUCHY)); g.add_factor(t.f[2]);
  g.solve(FGraphSolve::GN); states("s2", "b2", t); mats(g, "A2", "W2", "L2", "v2");
}
// a larger graph: 9 variables of mixed dimension, three anchored, 12 measurements with loop closures, additions interleaved
static const int BD[] = {2, 1, 3, 1, 2, 1, 1, 3, 2};
static const bool BA[] = {1, 0, 0, 0, 1, 0, 0, 1, 0};
template <class G> static void big(G &g, NP *n, FP *f, bool outs) {
  int nf = 0;
  auto an = [&](int i) { n[i] = NP(new VN(XN[i], AN[i], BD[i], BA[i] ? Node::ANCHOR : Node::STANDARD)); auto id = g.add_node(n[i]); if (outs) { vf_outi("nid", i, 0, id); vf_outi("sd", i, 0, g.get_dimension_state()); vf_outi("nn", i, 0, g.number_nodes()); } };
  auto af = [&](int dim, std::initializer_list<int> ns, RT t) { std::vector<NP> q; VF *p;
    auto it = ns.begin(); if (ns.size() == 1) p = new VF(nf, dim, {n[it[0]]}, t); else if (ns.size() == 2) p = new VF(nf, dim, {n[it[0]], n[it[1]]}, t); else p = new VF(nf, dim, {n[it[0]], n[it[1]], n[it[2]]}, t);
    f[nf] = FP(p); auto id = g.add_factor(f[nf]); if (outs) { vf_outi("fid", nf, 0, id); vf_outi("od", nf, 0, g.get_dimension_obs()); vf_outi("nfac", nf, 0, g.number_factors()); } ++nf; };
  an(0); an(1); af(2, {0, 1}, RT::QUADRATIC); an(2); an(3); af(1, {2, 3}, RT::HUBER); af(3, {1, 2}, RT::CAUCHY); an(4); af(1, {3, 4}, RT::MCCLURE); an(5); an(6); an(7);
  af(2, {4, 5}, RT::QUADRATIC); af(1, {6}, RT::HUBER); af(1, {5, 6}, RT::QUADRATIC); af(2, {6, 7}, RT::RANSAC); an(8); af(1, {7, 8}, RT::QUADRATIC); af(2, {1, 8}, RT::QUADRATIC); af(1, {8}, RT::CAUCHY); af(1, {2, 5, 8}, RT::QUADRATIC);
}
template <class G> static void book() {
  G g; NP n[9]; FP f[12]; big(g, n, f, true);
  for (int i = 0; i < 9; ++i) { vf_outi("ngid", i, 0, g.get_node(i)->get_id()); vf_outi("nsame", i, 0, g.get_node(i).get() == n[i].get()); auto *fl = n[i]->get_neighbour_factors(); vf_outi("nf", i, 0, fl->size()); for (size_t q = 0; q < fl->size(); ++q) vf_outi("nfid", i, q, (*fl)[q]->get_id()); }
  for (int k = 0; k < 12; ++k) { vf_outi("fgid", k, 0, g.get_factor(k)->get_id()); vf_outi("fsame", k, 0, g.get_factor(k).get() == f[k].get()); auto *nl = f[k]->get_neighbour_nodes(); vf_outi("nl", k, 0, nl->size()); for (size_t q = 0; q < nl->size(); ++q) vf_outi("nlid", k, q, (*nl)[q]->get_id()); }
}
// variables of the dimensions of poses, points and planes
static const int XD[] = {6, 3, 6, 4, 6, 3}; static const bool XA[] = {1, 0, 0, 0, 0, 0};
template <class G> static void mix(G &g, NP *n, FP *f) {
  for (int i = 0; i < 6; ++i) { n[i] = NP(new VN(XN[i], AN[i], XD[i], XA[i] ? Node::ANCHOR : Node::STANDARD)); g.add_node(n[i]); }
  int k = 0; auto af = [&](Factor *p) { f[k] = FP(p); g.add_factor(f[k]); ++k; };
  af(new VF(0, 6, {n[0], n[2]}, RT::QUADRATIC)); af(new VF(1, 3, {n[2], n[1]}, RT::HUBER)); af(new VF(2, 6, {n[2], n[4]}, RT::CAUCHY)); af(new VF(3, 4, {n[4], n[3]}, RT::QUADRATIC)); af(new VF(4, 6, {n[4]}, RT::MCCLURE)); af(new VF(5, 1, {n[2], n[5]}, RT::QUADRATIC)); af(new VF(6, 3, {n[0], n[5]}, RT::QUADRATIC));
}
// a long chain of scalar variables, one measurement between consecutive ones and a few alone
#ifndef CHAIN_N
#define CHAIN_N 110
#endif
static const int CN = CHAIN_N, CF = CN + 4;
template <class G> static void chain(G &g, NP *n, FP *f) {
  for (int i = 0; i < CN; ++i) { n[i] = NP(new VN(XN[i], AN[i], 1, i == 11 ? Node::ANCHOR : Node::STANDARD)); g.add_node(n[i]); if (i) { f[i - 1] = FP(new VF(i - 1, 1, {n[i - 1], n[i]}, RT::QUADRATIC)); g.add_factor(f[i - 1]); } }
  static const int u[] = {0, 5, 10, 18, CN - 1}; for (int k = 0; k < 5; ++k) { f[CN - 1 + k] = FP(new VF(CN - 1 + k, k == 4 ? 2 : 1, {n[u[k]]}, k & 1 || k == 4 ? RT::CAUCHY : RT::QUADRATIC)); g.add_factor(f[CN - 1 + k]); }
}
struct DX : public FGraphSolveDense { MatX1 &grad() { return gradient_; } MatX &hess() { return hessian_; } };
static void gnout(FGraphSolve &g, NP *n, int nn) { for (int i = 0; i < nn; ++i) for (unsigned j = 0; j < n[i]->get_dim(); ++j) { vf_out("s1", i, j, ((VN &)*n[i]).s(j)); vf_out("b1", i, j, ((VN &)*n[i]).a(j)); } mats(g, "A1", "W1", "L1", "v1"); vouts("c_true", g.chi2(true)); MatX1 c1 = g.get_chi2_array(); vout("arr1", c1);
  vouti("sd", g.get_dimension_state()); vouti("od", g.get_dimension_obs()); vouti("nn", g.number_nodes()); vouti("nfac", g.number_factors()); for (int i = 0; i < nn; ++i) { vf_outi("ngid", i, 0, g.get_node(i)->get_id()); vf_outi("nsame", i, 0, g.get_node(i).get() == n[i].get()); vf_outi("nf", i, 0, n[i]->get_neighbour_factors()->size()); } }
static void deout(DX &g) { vouts("err", g.calculate_error()); g.calculate_gradient_hessian(); vout("G", g.grad()); vout("HH", g.hess()); }
H H_mix_gn() { FGraphSolve g; NP n[6]; FP f[7]; mix(g, n, f); g.solve(FGraphSolve::GN); gnout(g, n, 6); } H H_mix_de() { DX g; NP n[6]; FP f[7]; mix(g, n, f); deout(g); }
H H_chain_gn() { FGraphSolve g; NP n[CN]; FP f[CF]; chain(g, n, f); g.solve(FGraphSolve::GN); gnout(g, n, CN); } H H_chain_de() { DX g; NP n[CN]; FP f[CF]; chain(g, n, f); deout(g); }
H H_book_s() { book<FGraphSolve>(); } H H_book_d() { book<FGraphSolveDense>(); } H H_book_g() { book<FGraph>(); }
H H_big_gn() { FGraphSolve g; NP n[9]; FP f[12]; big(g, n, f, false); g.solve(FGraphSolve::GN);
  for (int i = 0; i < 9; ++i) for (int j = 0; j < BD[i]; ++j) { vf_out("s1", i, j, ((VN &)*n[i]).s(j)); vf_out("b1", i, j, ((VN &)*n[i]).a(j)); } mats(g, "A1", "W1", "L1", "v1"); vouts("c_true", g.chi2(true)); MatX1 c1 = g.get_chi2_array(); vout("arr1", c1); }
H H_big_de() { struct D2 : public FGraphSolveDense { MatX1 &grad() { return gradient_; } MatX &hess() { return hessian_; } } g; NP n[9]; FP f[12]; big(g, n, f, false); vouts("err", g.calculate_error()); g.calculate_gradient_hessian(); vout("G", g.grad()); vout("HH", g.hess()); }
// removing a registration
H H_rm() {
  FGraphSolve g; NP n[2]; FP f[4]; for (int i = 0; i < 2; ++i) { n[i] = NP(new VN(XN[i], AN[i], 1)); g.add_node(n[i]); }
  for (int k = 0; k < 4; ++k) { f[k] = k & 1 ? FP(new VF(k, 1, {n[0], n[1]}, RT::QUADRATIC)) : FP(new VF(k, 1, {n[0]}, RT::QUADRATIC)); g.add_factor(f[k]); }
  int step = 0; auto show = [&](bool r) { for (int i = 0; i < 2; ++i) { auto *l = n[i]->get_neighbour_factors(); vf_outi("rn", step, i, l->size()); for (size_t q = 0; q < l->size(); ++q) vf_outi(i ? "rb" : "ra", step, q, (*l)[q]->get_id()); } vf_outi("rr", step, 0, r); ++step; };
  show(true); show(n[0]->rm_factor(f[1])); show(n[0]->rm_factor(f[1])); show(n[1]->rm_factor(f[0])); show(n[0]->rm_factor(f[3])); show(n[0]->rm_factor(f[0])); show(n[1]->rm_factor(f[3])); show(n[0]->rm_factor(f[2])); show(n[0]->rm_factor(f[2]));
}
// Levenberg-Marquardt
struct Small { NP n[3]; FP f[2]; };
template <class G> static void small(G &g, Small &t, int anchor) {
  static const int d[] = {1, 2, 1};
  for (int i = 0; i < 3; ++i) { t.n[i] = NP(new VN(XN[i], AN[i], d[i], i == anchor ? Node::ANCHOR : Node::STANDARD)); g.add_node(t.n[i]); }
  t.f[0] = FP(new VF(0, 2, {t.n[0], t.n[1]}, RT::QUADRATIC)); g.add_factor(t.f[0]);
  t.f[1] = FP(new VF(1, 1, {t.n[1], t.n[2]}, RT::QUADRATIC)); g.add_factor(t.f[1]);
}
static void sstates(const char *s, const char *a, Small &t) { for (int i = 0; i < 3; ++i) for (int j = 0; j < (i == 1 ? 2 : 1); ++j) { vf_out(s, i, j, ((VN &)*t.n[i]).s(j)); vf_out(a, i, j, ((VN &)*t.n[i]).a(j)); } }
static void lm(int iters, int anchor) {
  FGraphSolve g; Small t; small(g, t, anchor);
  g.solve(FGraphSolve::LM, iters, vf_in("lambda", 0, 0), vf_in("tol", 0, 0)); sstates("s", "a", t); sp("L", g.get_information_matrix()); sp("A", g.get_adjacency_matrix()); MatX1 v = g.get_vector_b(); vout("b", v);
}
H H_lm1() { lm(1, 2); } H H_lm2() { lm(2, 2); } H H_lm3() { lm(3, 0); } H H_lm1n() { lm(1, -1); } H H_lm1b() { lm(1, 0); } H H_lm2b() { lm(2, 0); }
// long histories
H H_dl4() { lm(4, 0); } H H_dl5() { lm(5, 0); } H H_dl6() { lm(6, 0); } H H_dl7() { lm(7, 0); } H H_dl8() { lm(8, 0); } 
template <class G> static void lmout(G &g, NP *n, int nn) { g.solve(FGraphSolve::LM, 1, vf_in("lambda", 0, 0), vf_in("tol", 0, 0)); for (int i = 0; i < nn; ++i) for (unsigned j = 0; j < n[i]->get_dim(); ++j) { vf_out("s", i, j, ((VN &)*n[i]).s(j)); vf_out("a", i, j, ((VN &)*n[i]).a(j)); } sp("L", g.get_information_matrix()); MatX1 v = g.get_vector_b(); vout("b", v); }
H H_lm1_mix() { FGraphSolve g; NP n[6]; FP f[7]; mix(g, n, f); lmout(g, n, 6); } H H_lm1_chain() { FGraphSolve g; NP n[CN]; FP f[CF]; chain(g, n, f); lmout(g, n, CN); } H H_lm1_big() { FGraphSolve g; NP n[9]; FP f[12]; big(g, n, f, false); lmout(g, n, 9); }
H H_lm_twice() { FGraphSolve g; Small t; small(g, t, 2); g.solve(FGraphSolve::LM, 1, vf_in("lambda", 0, 0), vf_in("tol", 0, 0)); sstates("s1", "a1", t); g.solve(FGraphSolve::LM, 1, vf_in("mu", 0, 0), vf_in("tol", 0, 0)); sstates("s2", "a2", t); sp("L", g.get_information_matrix()); }
H H_lm_gn() { FGraphSolve g; Small t; small(g, t, 2); g.solve(FGraphSolve::LM, 1, vf_in("lambda", 0, 0), vf_in("tol", 0, 0)); sstates("s1", "a1", t); g.solve(FGraphSolve::GN, 1, vf_in("mu", 0, 0), vf_in("tol", 0, 0)); sstates("s2", "a2", t); sp("L", g.get_information_matrix()); }
// dense graph solver
struct DG : public FGraphSolveDense { MatX1 &grad() { return gradient_; } MatX &hess() { return hessian_; } MatX1 &dx() { return dx_; } };
static void dense(int mask) {
  DG g; Top t; build(g, mask, t);
  vouts("err", g.calculate_error()); g.calculate_gradient_hessian(); vout("G", g.grad()); vout("HH", g.hess()); vouti("gr", g.grad().rows()); vouti("hr", g.hess().rows()); vouti("hc", g.hess().cols());
  states("s0", "c0", t); g.bookkeep_state(); states("s1", "c1", t);
  g.dx() = in_("dx", g.get_dimension_state()); g.update_state(); states("s2", "c2", t); vouts("err2", g.calculate_error()); g.calculate_gradient_hessian(); vout("G2", g.grad()); vout("H2", g.hess());
  g.update_state_from_bookkeep(); states("s3", "c3", t);
}
H H_de_0() { dense(0); } H H_de_1() { dense(1); } H H_de_2() { dense(2); } H H_de_4() { dense(4); } H H_de_8() { dense(8); } H H_de_5() { dense(5); } H H_de_9() { dense(9); } H H_de_10() { dense(10); }
static void dsolve(Optimizer::optimMethod m, int it) { DG g; Small t; small(g, t, 1); vouti("it", g.solve(m, it, vf_in("lambda", 0, 0))); sstates("s", "a", t); vout("h", g.hess()); }
H H_ds_nr1() { dsolve(Optimizer::NEWTON_RAPHSON, 1); } H H_ds_lms1() { dsolve(Optimizer::LEVENBERG_MARQUARDT_SPHER, 1); } H H_ds_lme1() { dsolve(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 1); }
static void dsl(Optimizer::optimMethod m, bool c) { DG g; NP n[CN]; FP f[CF]; int nn = c ? CN : 6; if (c) chain(g, n, f); else mix(g, n, f); vouti("it", g.solve(m, 1, vf_in("lambda", 0, 0)));
  for (int i = 0; i < nn; ++i) for (unsigned j = 0; j < n[i]->get_dim(); ++j) { vf_out("s", i, j, ((VN &)*n[i]).s(j)); vf_out("a", i, j, ((VN &)*n[i]).a(j)); } vout("h", g.hess()); }
H H_ds_nr1_mix() { dsl(Optimizer::NEWTON_RAPHSON, false); } H H_ds_lms1_mix() { dsl(Optimizer::LEVENBERG_MARQUARDT_SPHER, false); } H H_ds_lme1_mix() { dsl(Optimizer::LEVENBERG_MARQUARDT_ELLIP, false); }
H H_ds_nr1_chain() { dsl(Optimizer::NEWTON_RAPHSON, true); } H H_ds_lms1_chain() { dsl(Optimizer::LEVENBERG_MARQUARDT_SPHER, true); } H H_ds_lme1_chain() { dsl(Optimizer::LEVENBERG_MARQUARDT_ELLIP, true); }
H H_ds_nr() { dsolve(Optimizer::NEWTON_RAPHSON, 2); } H H_ds_lms() { dsolve(Optimizer::LEVENBERG_MARQUARDT_SPHER, 2); } H H_ds_lme() { dsolve(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 2); }
// generic optimiser on an uninterpreted problem
struct MO : public OptimizerDense {
  MatX1 x, b; MO(double tol) : OptimizerDense(tol, 0.25), x(in_("x", 2)), b(in_("bk", 2)) {}
  matData_t calculate_error() override { double e; vf_opaque("ERR", x.data(), 2, &e, 1); vf_event("err", 0, 0); return e; }
  void calculate_gradient_hessian() override { vf_event("hess", 0, 0); gradient_.resize(2); hessian_.resize(2, 2); vf_opaque("GRAD", x.data(), 2, gradient_.data(), 2); double h[3]; vf_opaque("HES", x.data(), 2, h, 3); hessian_ << h[0], h[1], h[1], h[2]; }
  void update_state() override { x += dx_; }
  void bookkeep_state() override { b = x; }
  void update_state_from_bookkeep() override { x = b; }
  MatX &hess() { return hessian_; }
};
static void opt(Optimizer::optimMethod m, int it) { MO o(vf_in("tol", 0, 0)); vouti("it", o.solve(m, it, vf_in("lambda", 0, 0))); vout("x", o.x); vout("b", o.b); vout("h", o.hess()); }
H H_nr1() { opt(Optimizer::NEWTON_RAPHSON, 1); } H H_nr2() { opt(Optimizer::NEWTON_RAPHSON, 2); } H H_nr3() { opt(Optimizer::NEWTON_RAPHSON, 3); }
H H_lms1() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 1); } H H_lms2() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 2); } H H_lms3() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 3); }
H H_lme1() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 1); } H H_lme2() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 2); } H H_lme3() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 3); }
H H_on4() { opt(Optimizer::NEWTON_RAPHSON, 4); } H H_on5() { opt(Optimizer::NEWTON_RAPHSON, 5); } H H_on6() { opt(Optimizer::NEWTON_RAPHSON, 6); }
H H_on7() { opt(Optimizer::NEWTON_RAPHSON, 7); } H H_on8() { opt(Optimizer::NEWTON_RAPHSON, 8); } H H_on9() { opt(Optimizer::NEWTON_RAPHSON, 9); }
H H_on10() { opt(Optimizer::NEWTON_RAPHSON, 10); } H H_on11() { opt(Optimizer::NEWTON_RAPHSON, 11); } H H_on12() { opt(Optimizer::NEWTON_RAPHSON, 12); }
H H_on13() { opt(Optimizer::NEWTON_RAPHSON, 13); } H H_on14() { opt(Optimizer::NEWTON_RAPHSON, 14); } H H_on15() { opt(Optimizer::NEWTON_RAPHSON, 15); }
H H_on16() { opt(Optimizer::NEWTON_RAPHSON, 16); } H H_on17() { opt(Optimizer::NEWTON_RAPHSON, 17); } H H_on18() { opt(Optimizer::NEWTON_RAPHSON, 18); }
H H_on19() { opt(Optimizer::NEWTON_RAPHSON, 19); } H H_on20() { opt(Optimizer::NEWTON_RAPHSON, 20); } H H_on21() { opt(Optimizer::NEWTON_RAPHSON, 21); }
H H_on22() { opt(Optimizer::NEWTON_RAPHSON, 22); } H H_on23() { opt(Optimizer::NEWTON_RAPHSON, 23); } H H_on24() { opt(Optimizer::NEWTON_RAPHSON, 24); }
H H_os4() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 4); } H H_os5() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 5); } H H_os6() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 6); }
H H_os7() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 7); } H H_os8() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 8); } H H_os9() { opt(Optimizer::LEVENBERG_MARQUARDT_SPHER, 9); }
H H_oe4() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 4); } H H_oe5() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 5); } H H_oe6() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 6); }
H H_oe7() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 7); } H H_oe8() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 8); } H H_oe9() { opt(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 9); }
// rejected ids
H H_bad_node0() { FGraphSolve g; g.get_node(0); } H H_bad_factor0() { FGraphSolve g; g.get_factor(0); }
static void bad(bool nd, factor_id_t k) { FGraphSolve g; Top t; build(g, 0, t); if (nd) vouti("id", g.get_node(k)->get_id()); else vouti("id", g.get_factor(k)->get_id()); }
H H_bad_node4() { bad(true, 4); } H H_bad_node9() { bad(true, 999); } H H_bad_noden() { bad(true, (factor_id_t)-1); }
H H_bad_factor5() { bad(false, 5); } H H_bad_factor9() { bad(false, 999); } H H_bad_factorn() { bad(false, (factor_id_t)-1); }
H H_ok_node3() { bad(true, 3); } H H_ok_factor4() { bad(false, 4); }
// release
static int dead_n, dead_f;
struct DN : public VN { DN(const char *n, const char *a, int d, Node::nodeMode m) : VN(n, a, d, m) {} ~DN() override { ++dead_n; } };
struct DF : public VF { DF(int k, int dim, std::initializer_list<NP> ns, RT t) : VF(k, dim, ns, t) {} ~DF() override { ++dead_f; } };
template <class G> static void release(int solve) {
  dead_n = dead_f = 0;
  {
    G g;
    {
      NP a(new DN("x0", "a0", 1, Node::STANDARD)), b(new DN("x1", "a1", 2, Node::STANDARD)), c(new DN("x2", "a2", 3, Node::ANCHOR)); FP f(new DF(0, 2, {a, b}, RT::QUADRATIC)), h(new DF(1, 1, {b, c}, RT::HUBER)), u(new DF(2, 1, {c}, RT::HUBER));
      g.add_node(a); g.add_node(b); g.add_node(c); g.add_factor(f); g.add_factor(h); g.add_factor(u);
      FP ef(new DF(3, 1, {a, c}, RT::HUBER)); if (solve & 2) g.add_eigen_factor(ef); 
    }
    vouti("alive_n", dead_n); vouti("alive_f", dead_f);
  }
  vouti("dead_n", dead_n); vouti("dead_f", dead_f); vouti("heap", vf_heap());
}
H H_rel_s() { release<FGraphSolve>(0); } H H_rel_d() { release<FGraphSolveDense>(0); } H H_rel_e() { release<FGraphSolve>(2); } H H_rel_g() { release<FGraph>(0); }
