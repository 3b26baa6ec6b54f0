// Shared drivers for histories: a fixed IMU stream, plausible readings, start-up.
#ifndef DRIVE_HPP
#define DRIVE_HPP
#include "node.hpp"
static const double T0 = 1000, DT = 0.01;
inline double T(double k) { return T0 + DT * k; }         // time of IMU sample k (may be fractional)
inline D3 accOf(int k) { return D3(0.1 + 0.4 * sin(0.9 * k), 0.3 * cos(0.7 * k), 9.81 + 0.5 * sin(0.5 * k)); }
inline D3 gyrOf(int k) { return D3(0.2 * sin(0.6 * k), -0.15 * cos(0.8 * k), 0.1 + 0.05 * (k % 3)); }
inline Pars hpars() {
  Pars p; p.p_ic = D3(0.1, -0.05, 0.2); p.q_ic = axq(0.3, 1, 2, 3); p.p_ip = D3(-0.2, 0.15, 0.3);
  for (const char* d : {"pose_delay", "position_delay", "angle_delay", "distance_delay"}) if (cfgHas<Cfg>(d)) p.cfg[d] = 0;
  return p;
}
struct M { int s; double t; int id; D3 kick = D3::Zero(); };   // one reading: sensor, time, number, extra offset
inline std::vector<int> sensors() {
#if defined(MGR_POSE)
  return {0};
#elif defined(MGR_POSITION)
  return {1};
#elif defined(MGR_POSITION_POSE)
  return {0, 1};
#elif defined(MGR_POSE_PRESSURE)
  return {0, 2};
#else
  return {3, 4};
#endif
}
inline void deliver(Node& n, const M& m) {
  double u = m.id, d = m.t - T0;
  if (m.s == 0) n.pose(m.t, D3(1.2 + 0.02 * u + 0.3 * d, 2.4 - 0.015 * u, 3.6 + 0.01 * u - 0.2 * d) + m.kick, axq(0.5 + 0.01 * u, 0.02 * u, 1, 1));
  else if (m.s == 1) n.position(m.t, D3(1.01 + 0.02 * u, 2.02 - 0.02 * u + 0.1 * d, 2.97 + 0.015 * u) + m.kick);
  else if (m.s == 2) n.pressure(m.t, 0.4 + 0.02 * u + 0.1 * d + m.kick[2]);
  else if (m.s == 3) n.angle(m.t, 0.9 + 0.002 * u + m.kick[0], 1.1 - 0.003 * u + m.kick[1]);
  else n.distance(m.t, 3.8 + 0.01 * u + m.kick[0]);
}
// geodetic coordinates and their local east/north/up coordinates around a reference
inline void geodetic(double lat, double lon, double alt, double* o) { const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f); double s = std::sin(lat * M_PI / 180), c = std::cos(lat * M_PI / 180), sl = std::sin(lon * M_PI / 180), cl = std::cos(lon * M_PI / 180), N = a / std::sqrt(1 - e2 * s * s); o[0] = (N + alt) * c * cl; o[1] = (N + alt) * c * sl; o[2] = (N * (1 - e2) + alt) * s; }
inline D3 enuOf(const double* r, const double* x) { double a[3], b[3]; geodetic(r[0], r[1], r[2], a); geodetic(x[0], x[1], x[2], b); double d[3] = {b[0] - a[0], b[1] - a[1], b[2] - a[2]}, la = r[0] * M_PI / 180, lo = r[1] * M_PI / 180;
  return D3(-std::sin(lo) * d[0] + std::cos(lo) * d[1], -std::sin(la) * std::cos(lo) * d[0] - std::sin(la) * std::sin(lo) * d[1] + std::cos(la) * d[2], std::cos(la) * std::cos(lo) * d[0] + std::cos(la) * std::sin(lo) * d[1] + std::sin(la) * d[2]); }
inline void feedImu(Node& n, int k) { n.imu(T(k), accOf(k), gyrOf(k)); }
// first readings, "init filter", then IMU samples 1..imus
inline void boot(Node& n, int imus, double scale = 1.2) {
  for (int s : sensors()) deliver(n, {s, T0 - 1 - 0.01 * s, 0});
  n.init(T0, scale);
  for (int k = 1; k <= imus; ++k) feedImu(n, k);
}
// The same items in another order (or a selection of them) fed to a fresh reference.
inline ref::RefNode reorder(const std::vector<ref::Ev>& log) { ref::RefNode r(KIND); for (auto& e : log) r.feed(e); return r; }
// IMU items as delivered; every reading right after the first IMU sample not older than it (in-order delivery).
inline std::vector<ref::Ev> inOrder(const std::vector<ref::Ev>& log) {
  std::vector<ref::Ev> ms, out; for (auto& e : log) if (e.k == 'M') ms.push_back(e);
  std::stable_sort(ms.begin(), ms.end(), [](const ref::Ev& a, const ref::Ev& b) { return a.m.t < b.m.t; });
  size_t j = 0; bool init = false;
  for (auto& e : log) if (e.k != 'M') { out.push_back(e); if (e.k == 'I') { init = true; continue; } if (!init) continue; while (j < ms.size() && ms[j].m.t <= e.t) out.push_back(ms[j++]); }
  while (j < ms.size()) out.push_back(ms[j++]);
  return out;
}
// The estimate published by the last update of the node against another reference run.
inline void finalEquals(Node& n, const ref::RefNode& r, const std::string& key, double tol = 1e-8) {
  Real x; if (!n.readFull(x)) mc::fail(key, "no update was published at the end");
  std::string w; mc::check();
  double d = n.devX(x.x, r.latest().x, &w); if (d > tol) mc::fail(key, mc::fmt("%s (deviation %.3g)", w.c_str(), d));
  double e = n.devP(x.P, r.latest().P, &w); if (e > tol) mc::fail(key, mc::fmt("%s (relative deviation %.3g)", w.c_str(), e));
  mc::deviation(std::max(d, e));
}
inline uint64_t xhash(const ref::V& x) { uint64_t h = 7; for (int i = 0; i < x.size(); ++i) h = mc::mix(h, (uint64_t)llround(x[i] * 1e6)); return h; }
// Feeds IMU samples until nothing is pending, then one more reading at the newest time, which shows the whole estimate.
inline int drain(Node& n, int k, int maxn = 12) { int c = 0; do feedImu(n, ++k); while (!n.ref.queue.empty() && ++c < maxn); mc::require(n.ref.queue.empty(), "measurement-starved", "a measurement is still pending although its time was passed long ago"); return k; }
#endif
