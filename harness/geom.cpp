#include "mrob/SO3.hpp"
#include "mrob/SE3.hpp"
#include "mrob/SE3cov.hpp"
#include "vf.hpp"
using namespace mrob;
static SE3 T(const char *n) { Mat4 m = vin<4, 4>(n); return SE3(m); }
static SO3 Rr(const char *n) { Mat3 m = vin<3, 3>(n); return SO3(m); }
// ---- C01
H H_so3_mul() { SO3 a = Rr("A"), b = Rr("B"); SO3 c = a * b; SO3 d = a.mul(b); vout("mul", c.R()); vout("mul2", d.R()); vout("a", a.R()); vout("b", b.R()); }
H H_so3_inv() { SO3 a = Rr("A"); SO3 c = a.inv(); vout("inv", c.R()); vout("a", a.R()); }
H H_so3_acc() { SO3 a = Rr("A"); vout("R", a.R()); vout("ref", a.ref2R()); SO3 b(a); vout("cp", b.R()); SO3 c; vout("def", c.R()); c = a; vout("as", c.R()); c = c; vout("self", c.R()); }
H H_se3_mul() { SE3 a = T("A"), b = T("B"); SE3 c = a * b; SE3 d = a.mul(b); vout("mul", c.T()); vout("mul2", d.T()); vout("a", a.T()); vout("b", b.T()); SE3 e = a; e = e * e; vout("sq", e.T()); }
H H_se3_inv() { SE3 a = T("A"); SE3 c = a.inv(); vout("inv", c.T()); vout("a", a.T()); }
H H_se3_acc() {
  SE3 a = T("A"); vout("T", a.T()); vout("R", a.R()); vout("t", a.t()); vout("ref", a.ref2T());
  SE3 b(a); vout("cp", b.T()); SE3 c; vout("def", c.T()); c = a; vout("as", c.T());
  Mat3 R = vin<3, 3>("R"); Mat31 t = vin<3, 1>("t"); SE3 d(R, t); vout("Rt", d.T()); SO3 r(R); SE3 e(r, t); vout("SO3t", e.T());
  SE3 f(a * b); vout("expr", f.T()); c = c; vout("self", c.T());
}
H H_se3_transform() { SE3 a = T("A"); Mat31 p = vin<3, 1>("p"); vout("q", a.transform(p)); vout("a", a.T()); }
H H_se3_array() { SE3 a = T("A"); MatX P = vin<4, 3>("P"); MatX Q = a.transform_array(P); vouti("rows", Q.rows()); vouti("cols", Q.cols()); vout("Q", Q); vout("P", P); vout("a", a.T()); }
template <int N> static void arr() { SE3 a = T("A"); MatX P = vin<N, 3>("P"); MatX Q = a.transform_array(P); vouti("rows", Q.rows()); vouti("cols", Q.cols()); vout("Q", Q); }
H H_se3_array0() { SE3 a = T("A"); MatX P(0, 3); MatX Q = a.transform_array(P); vouti("rows", Q.rows()); vouti("cols", Q.cols()); }
H H_se3_array2() { arr<2>(); } H H_se3_array5() { arr<5>(); } H H_se3_array8() { arr<8>(); } H H_se3_array16() { arr<16>(); } H H_se3_array19() { arr<19>(); } H H_se3_array37() { arr<37>(); } H H_se3_array67() { arr<67>(); } H H_se3_array131() { arr<131>(); } H H_se3_array259() { arr<259>(); } H H_se3_array515() { arr<515>(); } H H_se3_array1027() { arr<1027>(); }
H H_se3_array1() { SE3 a = T("A"); MatX P = vin<1, 3>("P"); MatX Q = a.transform_array(P); vouti("rows", Q.rows()); vouti("cols", Q.cols()); vout("Q", Q); }
H H_se3_array3() { SE3 a = T("A"); MatX P = vin<3, 3>("P"); MatX Q = a.transform_array(P); vouti("rows", Q.rows()); vouti("cols", Q.cols()); vout("Q", Q); }
// ---- C02
H H_so3_exp() { Mat31 w = vin<3, 1>("w"); SO3 a(w); vout("R", a.R()); SO3 b; b.exp(hat3(w)); vout("R2", b.R()); }
H H_se3_exp() { Mat61 xi = vin<6, 1>("xi"); SE3 a(xi); vout("T", a.T()); SE3 b; b.exp(hat6(xi)); vout("T2", b.T()); }
// ---- C03
H H_so3_ln() { SO3 a = Rr("A"); double o; Mat3 W = a.ln(&o); vout("W", W); vouts("o", o); vout("v", a.ln_vee()); Mat3 W2 = a.ln(); vout("W2", W2); vout("a", a.R()); }
H H_se3_ln() { SE3 a = T("A"); vout("W", a.ln()); vout("v", a.ln_vee()); vout("a", a.T()); }
// ---- C04
H H_so3_lhs() { SO3 a = Rr("A"); Mat31 w = vin<3, 1>("w"); a.update_lhs(w); vout("T", a.R()); vout("D", SO3(w).R()); vout("w", w); }
H H_so3_rhs() { SO3 a = Rr("A"); Mat31 w = vin<3, 1>("w"); a.update_rhs(w); vout("T", a.R()); vout("D", SO3(w).R()); vout("w", w); }
H H_se3_lhs() { SE3 a = T("A"); Mat61 w = vin<6, 1>("w"); a.update_lhs(w); vout("T", a.T()); vout("D", SE3(w).T()); vout("w", w); }
H H_se3_lhs2() { SE3 a = T("A"); Mat61 w = vin<6, 1>("w"), x = vin<6, 1>("x"); a.update_lhs(w); a.update_lhs(x); vout("T", a.T()); vout("D1", SE3(w).T()); vout("D2", SE3(x).T()); }
H H_se3_rhs2() { SE3 a = T("A"); Mat61 w = vin<6, 1>("w"), x = vin<6, 1>("x"); a.update_rhs(w); a.update_rhs(x); vout("T", a.T()); vout("D1", SE3(w).T()); vout("D2", SE3(x).T()); }
H H_se3_rhs() { SE3 a = T("A"); Mat61 w = vin<6, 1>("w"); a.update_rhs(w); vout("T", a.T()); vout("D", SE3(w).T()); vout("w", w); }
H H_se3_regen() { SE3 a = T("A"); SE3 s(T("A").ln_vee()); a.regenerate(); vout("T", a.T()); vout("S", s.T()); }
// ---- C05
H H_adj() { SE3 a = T("A"); vout("adj", a.adj()); vout("a", a.T()); SO3 b = Rr("B"); vout("adj3", b.adj()); }
// ---- C06
H H_hat() { Mat31 w = vin<3, 1>("w"); Mat61 x = vin<6, 1>("x"); vout("hat3", hat3(w)); vout("hat6", hat6(x)); vout("vh3", vee3(hat3(w))); vout("vh6", vee6(hat6(x))); Mat3 W = vin<3, 3>("W"); Mat4 X = vin<4, 4>("X"); vout("vee3", vee3(W)); vout("vee6", vee6(X)); vout("cw", curly_wedge(x)); }
// ---- C07
H H_dist() {
  SE3 a = T("A"), b = T("B"); vouts("d", a.distance(b)); vouts("dr", a.distance_rotation(b)); vouts("dt", a.distance_trans(b));
  vouts("d0", a.distance()); vouts("dr0", a.distance_rotation()); vouts("dt0", a.distance_trans());
  SE3 I; vout("l", (a * b.inv()).ln_vee()); vout("l0", a.ln_vee()); vout("lr", (SO3(a.R()) * SO3(b.R()).inv()).ln_vee()); vout("lr0", SO3(a.R()).ln_vee());
  SO3 c = Rr("C"), d = Rr("D"); vouts("so3", c.distance(d)); vout("lso3", (c * d.inv()).ln_vee()); vout("a", a.T()); vout("b", b.T()); vout("c", c.R()); vout("dd", d.R());
}
H H_dist_self() { SE3 a = T("A"); SO3 c = Rr("C"); vouts("d", a.distance(a)); vouts("dr", a.distance_rotation(a)); vouts("dt", a.distance_trans(a)); vouts("s", c.distance(c)); }
// ---- C08
H H_isSO3() { Mat3 m = vin<3, 3>("M"); vouti("r", isSO3(m)); }
H H_isSE3() { Mat4 m = vin<4, 4>("M"); vouti("r", isSE3(m)); }
// ---- C09
H H_quat() { Mat41 q = vin<4, 1>("q"); vout("R", quat_to_so3(q)); }
H H_toquat() { Mat3 R = vin<3, 3>("R"); vout("q", so3_to_quat(R)); }
H H_rpy() { Mat31 v = vin<3, 1>("v"); vout("R", rpy_to_so3(v)); }
// ---- C10 / C11
static void covout(const char *n, const SE3Cov &c, const char *m) { vout(n, c.T()); vout(m, c.cov()); }
H H_cov2() {
  SE3 a = T("A"), b = T("B"); Mat6 P = vin<6, 6>("P"), Q = vin<6, 6>("Q"); SE3Cov A(a, P), B(b, Q);
  covout("T1", A.compound_2nd_order(b, Q), "C1"); covout("T2", A.compound_2nd_order(B), "C2"); covout("T3", A * B, "C3"); covout("T4", A.mul(B), "C4");
  covout("Ta", A, "Ca"); covout("Tb", B, "Cb");
}
H H_cov4() {
  SE3 a = T("A"), b = T("B"); Mat6 P = vin<6, 6>("P"), Q = vin<6, 6>("Q"); SE3Cov A(a, P), B(b, Q);
  covout("T1", A.compound_4th_order(b, Q), "C1"); covout("T2", A.compound_4th_order(B), "C2");
  covout("Ta", A, "Ca"); covout("Tb", B, "Cb");
}
H H_covctor() { SE3 a = T("A"); Mat6 P = vin<6, 6>("P"); SE3Cov d; covout("Td", d, "Cd"); SE3Cov A(a, P); SE3Cov c(A); covout("Tc", c, "Cc"); SE3Cov s; s = A; covout("Ts", s, "Cs"); }
