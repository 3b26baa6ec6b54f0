// Invariants over every reachable estimate (C05): finite, unit quaternions, symmetric positive semidefinite covariance.
#include "drive.hpp"
#include <tf/transform_broadcaster.h>
#include <Eigen/Eigenvalues>
using std::vector; using ref::V; typedef ref::M Mat;
using namespace sensor_fusion_comm;
static const vector<int> S = sensors();
static void fin(double v, const char* what) { if (!std::isfinite(v)) mc::fail("not-finite", what); }
template<class P> static void finPose(const P& p, const char* what) {
  fin(p.position.x + p.position.y + p.position.z, what); auto& o = p.orientation; double n = std::sqrt(o.w * o.w + o.x * o.x + o.y * o.y + o.z * o.z);
  if (!(std::fabs(n - 1) < 1e-9)) mc::fail("quaternion-norm", mc::fmt("%s: norm %.12g", what, n));
}
static double mxAll = 0;          // largest covariance entry seen in this execution: scale of rounding errors
// smallest eigenvalue of the covariance scaled by its standard deviations
static void psd(const Mat& P, const char* what) {
  int n = P.rows(); double mx = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (!std::isfinite(P(i, j))) mc::fail("not-finite", mc::fmt("%s (%d,%d)", what, i, j)); mx = std::max(mx, std::fabs(P(i, j))); }
  mxAll = std::max(mxAll, mx);
  Mat C(n, n); vector<double> s(n);
  for (int i = 0; i < n; ++i) { if (P(i, i) < -1e-13 * mxAll) mc::fail("negative-variance", mc::fmt("%s (%d): %g, largest entry %g", what, i, P(i, i), mx)); s[i] = std::sqrt(std::max(P(i, i), 0.0) + 1e-11 * mx); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double d = std::fabs(P(i, j) - P(j, i)); if (d > 1e-9 * s[i] * s[j]) mc::fail("asymmetric", mc::fmt("%s (%d,%d): %.15g and %.15g", what, i, j, P(i, j), P(j, i))); C(i, j) = P(i, j) / (s[i] * s[j]); }
  Eigen::SelfAdjointEigenSolver<Mat> es(C, Eigen::EigenvaluesOnly); double e = es.eigenvalues()[0]; mc::check();
  if (e < -1e-6) {
    double u = Eigen::SelfAdjointEigenSolver<Mat>(P, Eigen::EigenvaluesOnly).eigenvalues()[0]; if (mxAll > 0) mc::deviation(-u / mxAll);
    if (u < -1e-13 * mxAll) mc::fail("negative-eigenvalue", mc::fmt("%s: smallest eigenvalue %g (scaled by the standard deviations %g), largest entry %g", what, u, e, mx));
  }
}
static bool inspect(Node& n) {       // everything published by the last event
  bool any = false;
  for (auto& r : n.w.out) {
    auto is = [&](const std::type_info& t) { return r.type == std::type_index(t); };
    auto cov6 = [&](const auto& c, const char* w) { Mat P(6, 6); for (int i = 0; i < 36; ++i) P(i / 6, i % 6) = c[i]; psd(P, w); };
    if (is(typeid(geometry_msgs::PoseWithCovarianceStamped))) { auto& m = *(const geometry_msgs::PoseWithCovarianceStamped*)r.msg.get(); finPose(m.pose.pose, r.topic.c_str()); cov6(m.pose.covariance, r.topic.c_str()); any = true; }
    else if (is(typeid(nav_msgs::Odometry))) { auto& m = *(const nav_msgs::Odometry*)r.msg.get(); finPose(m.pose.pose, "odometry"); auto& t = m.twist.twist; fin(t.linear.x + t.linear.y + t.linear.z + t.angular.x + t.angular.y + t.angular.z, "odometry twist"); cov6(m.twist.covariance, "odometry twist covariance"); }
    else if (is(typeid(ExtState))) { auto& m = *(const ExtState*)r.msg.get(); finPose(m.pose, "ext_state"); fin(m.velocity.x + m.velocity.y + m.velocity.z, "ext_state velocity"); }
    else if (is(typeid(ExtEkf))) { auto& m = *(const ExtEkf*)r.msg.get(); for (float f : m.state) fin(f, "correction"); double q = 0; for (int i = 6; i < 10; ++i) q += (double)m.state[i] * m.state[i]; if (!(std::fabs(std::sqrt(q) - 1) < 1e-5)) mc::fail("quaternion-norm", mc::fmt("correction: %g", std::sqrt(q))); }
    else if (is(typeid(DoubleArrayStamped))) { auto& m = *(const DoubleArrayStamped*)r.msg.get(); for (double f : m.data) fin(f, "state_out");
      for (auto& v : n.ref.s.vars) if (v.quat) { double q = 0; for (int i = 0; i < 4; ++i) q += m.data[v.s + i] * m.data[v.s + i]; if (!(std::fabs(std::sqrt(q) - 1) < 1e-9)) mc::fail("quaternion-norm", mc::fmt("%s: norm %.12g", v.name.c_str(), std::sqrt(q))); } }
  }
  Real r; if (n.w.count("/msf_core/state_out") && n.readFull(r)) {
    psd(r.P, "full covariance"); mc::state(mc::mix(xhash(r.x), (uint64_t)llround(r.P.trace() * 1e9))); any = true; }
  return any;
}
struct Run { Node n; double t = T0; int k = 0, gross = 2, mild = 3; int off() { return gross-- > 0 ? 1 : mild-- > 0 ? 3 : 0; } explicit Run(const Pars& p) : n(p) { n.lockstep = false; mxAll = 0; } };
static void imu(Run& r, double dt, const D3& a, const D3& g) { r.t += dt; ++r.k; r.n.imu(r.t, a, g); inspect(r.n); }
static void imu(Run& r) { imu(r, DT, accOf(r.k), gyrOf(r.k)); }
static DQ flipAxis(int i) { return axq(M_PI * (i % 2 ? 0.94 : 0.7), i % 3 == 0, i % 3 == 1, i % 3 == 2 ? 1 : 0.2); }
// a reading of sensor s: 0 consistent with standing at the initial place, 1 far off, 2 somewhat off, 3 moderately off
static void read(Run& r, int s, double t, int kind, int id) {
  double u = kind == 1 ? 1 : kind == 2 ? 3e-6 : kind == 3 ? 0.001 : 0; DQ q0 = axq(0.5, 0, 1, 1), q = kind == 1 ? flipAxis(id) * q0 : kind == 2 ? axq(0.002, 1, 2, 3) * q0 : kind == 3 ? axq(0.1, id % 2, 1, -1) * q0 : q0;
  if (s == 0) { double c[36] = {0}; for (int i = 0; i < 6; ++i) c[7 * i] = 1e-4 * (1 + i); c[1] = c[6] = 5e-5; r.n.pose(t, D3(1.2 + 800 * u, 2.4 - 500 * u, 3.6 + 30 * u), q, c); }
  else if (s == 1) r.n.position(t, D3(1 - 3000 * u, 2 + 100 * u, 3 + 1000 * u)); else if (s == 2) r.n.pressure(t, 0.4 + 2000 * u);
  else if (s == 3) r.n.angle(t, 0.9 + u * 2.1, 1.1 - u * 3); else r.n.distance(t, 3.8 + 3000 * u); inspect(r.n);
}
static Pars noises() {          // valid noise settings
  Pars p = hpars(); int core = mc::choose(3), meas = mc::choose(3), aux = mc::choose(3); 
  const char* cn[4] = {"core_noise_acc", "core_noise_accbias", "core_noise_gyr", "core_noise_gyrbias"}; const double lo[4] = {1e-4, 1e-8, 1e-4, 1e-7}, hi[4] = {0.5, 0.1, 0.5, 0.1};
  if (core) for (int i = 0; i < 4; ++i) p.core[cn[i]] = core == 1 ? lo[i] : hi[i];
  for (const char* m : {"pose_noise_meas_p", "pose_noise_meas_q", "position_noise_meas", "press_noise_meas_p", "angle_noise_meas", "distance_noise_meas"}) if (cfgHas<Cfg>(m) && meas) p.cfg[m] = meas == 1 ? 1e-3 : 10;
  for (const char* m : {"pose_noise_scale", "pose_noise_p_wv", "pose_noise_q_wv", "pose_noise_p_ic", "pose_noise_q_ic", "position_noise_p_ip", "press_noise_bias_p", "noise_p_ip"}) if (cfgHas<Cfg>(m) && aux) p.cfg[m] = aux == 1 ? 0.01 : 0.3;
  return p;
}
static int mode(Pars& p, bool mixed = false) {     // how readings are used
  // relative readings (mode 3) next to those of another sensor: only in c05_relative_mixed
  int m = mixed ? 3 : S[0] != 0 ? mc::choose(3) : S.size() == 1 ? mc::choose(5) : mc::pick(vector<int>{0, 1, 2, 4});
  if (m == 1) { p.core["core_fixed_bias"] = 1; for (const char* f : {"pose_fixed_p_ic", "pose_fixed_q_wv", "position_fixed_p_ip", "fixed_p_ip"}) if (cfgHas<Cfg>(f)) p.cfg[f] = 1; }
  if (m == 2) { p.pose_gate = p.pos_gate = p.press_gate = p.sph_gate = true; p.pose_thr = p.pos_thr = p.press_thr = p.sph_thr = 5; p.pose_fixedcov = false; }
  if (m == 3) p.pose_abs = false; if (m == 4) { p.world_sensor = false; p.pose_fixedcov = false; }
  return m;
}
static void start(Run& r, int imus) {
  for (int s : S) { read(r, s, T0 - 1 - 0.01 * s, 0, 0); } r.n.init(T0, 1.2); inspect(r.n); for (int i = 0; i < imus; ++i) imu(r);
}
static void event(Run& r, int e, int i) {
  int s2 = S.back();
  switch (e) {
    case 0: imu(r); break;
    case 1: imu(r, DT, D3(25, -20, 38), D3(14, -9, 11)); break;
    case 2: imu(r, 0.1, accOf(i), D3(0.5, -3, 1)); break;
    case 3: read(r, S[0], r.t, 0, i); break;
    case 4: read(r, S[0], r.t, r.off(), i); break;
    case 5: read(r, S[0], r.t - 0.027, 2, i); break;
    case 6: read(r, s2, r.t + 0.004, i % 3 == 1 ? r.off() : i % 3, i); imu(r); break;
    case 7: { vector<float> st(16, 0.f); st[0] = 40 - i; st[3] = -7; st[6] = 0.6f; st[8] = 0.8f; r.t += DT; r.n.external(r.t, accOf(i), gyrOf(i), st, 1); inspect(r.n); break; }
    case 8: read(r, s2, r.t - 0.02, i % 2 == 0 ? 2 : r.off(), i); break;
  }
}
static void c05events(int depth) {
  Pars p = noises(); mode(p); Run r(p); start(r, 5);
  for (int i = 0; i < depth; ++i) event(r, mc::choose(9), i);
  for (int i = 0; i < 3; ++i) imu(r); read(r, S[0], r.t, 0, 9); if (S.size() > 1) read(r, S[1], r.t, 0, 9); imu(r); mc::outcome(mc::mix(r.k, r.n.w.out.size()));
}
static void c05long(bool mixed) {        // patterns repeated over many seconds
  Pars p = noises(); int md = mode(p, mixed), a = mc::choose(9), b = mc::choose(9), len = mc::thorough() ? 200 : 24; Run r(p); r.gross = md == 2 ? 2 : 0; start(r, 5);
  for (int i = 0; i < len; ++i) { imu(r); imu(r); event(r, a, i); imu(r); event(r, b, i); }
  imu(r); read(r, S[0], r.t, 0, 9); mc::outcome(mc::mix(r.k, r.n.w.out.size()));
}
// configurations at which a sensor model is singular
static void c05singular() {
  int rot = mc::choose(4), ax = mc::choose(3), ext = mc::choose(2), still = mc::choose(2), place = mc::choose(5), gate = mc::choose(2);
  Pars p = hpars(); if (ext) { p.p_ic = p.p_ip = D3::Zero(); p.q_ic = DQ::Identity(); } p.pose_gate = p.pos_gate = p.sph_gate = gate; Run r(p);
  static const double ang[4] = {M_PI, M_PI / 2, 1.5 * M_PI, M_PI - 1e-9}; DQ q = rot == 0 ? DQ(0, ax == 0, ax == 1, ax == 2) : axq(ang[rot], ax == 0, ax == 1, ax == 2);
  auto rd = [&](int s, double t, bool turned) {
    static const D3 P[5] = {D3(0, 0, 0), D3(0, 0, 4), D3(0, 0, -4), D3(-3, 0, 0), D3(0, 3, 0)}; D3 x = P[place];
    if (s == 0) r.n.pose(t, x, turned ? q : DQ::Identity()); else if (s == 1) r.n.position(t, x); else if (s == 2) r.n.pressure(t, x[2]);
    else if (s == 3) r.n.angle(t, place == 1 ? 0 : place == 2 ? M_PI : M_PI / 2, place == 3 ? M_PI : place == 4 ? M_PI / 2 : 0); else r.n.distance(t, x.norm()); inspect(r.n);
  };
  for (int s : S) rd(s, T0 - 1 - 0.01 * s, false); r.n.init(T0, 1); inspect(r.n);
  D3 g(0, 0, 9.80834), w(0, 0, 0); for (int i = 0; i < 5; ++i) imu(r, DT, still ? g : accOf(i), still ? w : gyrOf(i));
  for (int i = 0; i < 4; ++i) { for (int s : S) rd(s, r.t, i % 2 == 0); imu(r, DT, still ? g : accOf(i), still ? w : gyrOf(i)); }
  mc::outcome(mc::mix(r.k, r.n.w.out.size()));
}
int main(int argc, char** argv) {
  vector<mc::Scenario> L; bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough";
  auto add = [&](const char* nm, std::function<void()> f, int sd = 3, int to = 30) { mc::Scenario s; s.name = nm; s.fn = f; s.sharddepth = sd; s.timeout_s = to; L.push_back(s); };
  add("c05_events", [=] { c05events(th ? 4 : 3); }); add("c05_long", [] { c05long(false); }); if (S.size() > 1 && S[0] == 0) add("c05_relative_mixed", [] { c05long(true); }); add("c05_singular", c05singular);
  return mc::mainLoop(argc, argv, L);
}
