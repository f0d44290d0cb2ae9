// harness primitives; bodies do not exist: the abstract interpreter gives them meaning
#pragma once
#include <Eigen/Dense>
extern "C" {
double vf_in(const char *name, int i, int j);
int vf_bool(const char *name);
void vf_out(const char *name, int i, int j, double v);
void vf_outi(const char *name, int i, int j, long v);
void vf_event(const char *name, long a, long b);
int vf_live(const void *);
int vf_kind(const void *);
int vf_heap();
}
template <int R, int C> inline Eigen::Matrix<double, R, C, (R > 1 && C > 1) ? Eigen::RowMajor : (C > 1 ? Eigen::RowMajor : Eigen::ColMajor)> vin(const char *n) {
  Eigen::Matrix<double, R, C, (R > 1 && C > 1) ? Eigen::RowMajor : (C > 1 ? Eigen::RowMajor : Eigen::ColMajor)> m;
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = vf_in(n, i, j);
  return m;
}
template <class M> inline void vout(const char *n, const M &m) {
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) vf_out(n, i, j, m(i, j));
}
inline void vouts(const char *n, double v) { vf_out(n, 0, 0, v); }
inline void vouti(const char *n, long v) { vf_outi(n, 0, 0, v); }
#define H extern "C" void
