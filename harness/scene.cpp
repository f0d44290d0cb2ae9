// synthetic scenes: every random draw is an unconstrained value
#include "mrob/create_points.hpp"
#include "vf.hpp"
#include <memory>
using namespace mrob;
extern "C" int vf_draws; int vf_draws;
static void sc(int N, int P, int T) {
  vf_draws = 0; CreatePoints c(N, P, T, vf_in("noise", 0, 0), vf_in("bias", 0, 0)); vouti("draws", vf_draws); vouti("np", c.get_number_planes()); vouti("nt", c.get_number_poses());
  auto &tr = c.get_ground_truth_trajectory(); auto &pl = c.get_plane_poses(); auto &ps = c.get_all_planes(); vouti("ntr", tr.size()); vouti("npl", pl.size()); vouti("nps", ps.size());
  vout("T0", c.get_ground_truth_pose(0).T()); vout("TL", c.get_ground_truth_last_pose().T()); Mat61 l = c.get_ground_truth_last_pose().ln_vee();
  for (int t = 0; t < T; ++t) { static const char *a[] = {"Ta0", "Ta1", "Ta2", "Ta3"}, *b[] = {"Tb0", "Tb1", "Tb2", "Tb3"}, *s[] = {"Ts0", "Ts1", "Ts2", "Ts3"}; vout(a[t], c.get_ground_truth_pose(t).T()); vout(b[t], tr[t].T()); Mat61 k = (T > 1 ? double(t) / (T - 1) : 0.0) * l; vout(s[t], SE3(k).T()); }
  PlaneRegistration r; c.create_plane_registration(r); vouti("rp", r.get_number_planes()); vouti("rt", r.get_number_poses());
  long lab = 0, mine = 0, own = 0, cnt = 0, miss = 0;
  for (int t = 0; t < T; ++t) {
    static const char *a[] = {"I0", "I1", "I2", "I3"}; vout(a[t], r.get_trajectory(t).T());
    auto &X = c.get_point_cloud(t); auto &id = c.get_point_plane_ids(t); vf_outi("nX", t, 0, X.size()); vf_outi("nid", t, 0, id.size()); std::vector<int> k(P, 0);
    for (size_t i = 0; i < X.size(); ++i) {
      if (id[i] >= (uint_t)P) { ++lab; continue; }
      Mat31 q = tr[t].transform(X[i]); q = pl[id[i]].inv().transform(q); for (int j = 0; j < 3; ++j) vf_out("q", (t * 100 + i), j, q(j));
      if (ps[id[i]].first != id[i]) ++own;
      auto &y = ps[id[i]].second->get_points(t); auto &z = r.get_all_planes().at(id[i])->get_points(t); size_t m = k[id[i]]++; if (m >= y.size() || m >= z.size()) { ++mine; continue; }
      for (int j = 0; j < 3; ++j) { vf_out("x", (t * 100 + i), j, X[i](j)); vf_out("y", (t * 100 + i), j, y[m](j)); vf_out("z", (t * 100 + i), j, z[m](j)); }
    }
    for (int p = 0; p < P; ++p) { if ((size_t)k[p] != ps[p].second->get_points(t).size() || (size_t)k[p] != r.get_all_planes().at(p)->get_points(t).size()) ++cnt; if (N >= P && !k[p]) ++miss; }
  }
  vouti("lab", lab); vouti("mine", mine); vouti("own", own); vouti("cnt", cnt); vouti("miss", miss);
  SE3 e(Mat61(vin<6, 1>("e"))); if (T > 1) r.set_last_pose(e); c.create_plane_registration(r); for (int t = 0; t < T; ++t) { static const char *a[] = {"I4", "I5", "I6", "I7"}; vout(a[t], r.get_trajectory(t).T()); } vouti("tot", r.calculate_total_number_points());
}
H H_scene_a() { sc(10, 4, 2); }
H H_scene_b() { sc(7, 3, 3); }
H H_scene_c() { sc(5, 5, 4); }
H H_scene_d() { sc(6, 1, 1); }
H H_scene_e() { sc(2, 3, 2); }
