// Numerical content of one prediction, one correction, one initialization and one message: every combination of
// configuration, attitude, motion and reading from small grids, in lock-step with the reference.
#include "drive.hpp"
#include <Eigen/Eigenvalues>
using std::vector; using ref::V; typedef ref::M Mat; using ref::V3; using ref::V4;
static const vector<int> S = sensors();
static const bool HASPOSE = S[0] == 0;
static const vector<DQ>& atts() { static const vector<DQ> a = {DQ(1, 0, 0, 0), axq(0.4, 1, 2, -1), axq(2.2, -1, 0.3, 0.5), axq(3.1, 0.2, 1, 0.1), axq(1.5708, 1, 0, 0), axq(-1.2, 0, 0, 1), DQ(-0.5, 0.5, 0.5, 0.5)}; return a; }
// First readings such that the attitude after initialization is q (as far as this node can tell), then init.
static void bootAt(Node& n, const DQ& q, int imus = 5, double scale = 1.3, const D3& pos = D3(1.1, -2.3, 3.4)) {
  if (HASPOSE && std::string(KIND) != "position_pose") {
    V4 qc = ref::qmul(R4(q), ref::qnorm(R4(n.pr.q_ic))); DQ z(qc[0], qc[1], qc[2], qc[3]); D3 p = pos;
    if (!n.pr.world_sensor) { p = -(z.toRotationMatrix().transpose() * pos); z = z.conjugate(); D3 p2 = p; p = p2; }
    n.pose(T0 - 1, p, z);
    for (int s : S) if (s == 2 && pos[2] < 0) n.pressure(T0 - 1.01, -7.3); else if (s) deliver(n, {s, T0 - 1.01, 0});
  } else {
    for (int s : S) deliver(n, {s, T0 - 1.01, 0});
    double yaw = std::atan2(2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z())) * 180 / M_PI;
    n.setCfg(n.isSph() ? "yaw_init" : "position_yaw_init", yaw);
  }
  n.init(T0, scale);
  for (int k = 1; k <= imus; ++k) feedImu(n, k);
  if (!HASPOSE || std::string(KIND) == "position_pose") {      // turn towards q by a fast rotation
    double yaw = 0; (void)yaw; V4 cur = n.ref.s.g4(n.ref.latest().x, "q"); V4 dq = ref::qmul(ref::qconj(cur), R4(q)); if (dq[0] < 0) dq = -dq;
    V3 ax(dq[1], dq[2], dq[3]); double sn = std::sqrt(ax.squaredNorm()), ang = 2 * std::atan2(sn, dq[0]); if (sn < 1e-9) return;
    D3 rate(ax[0] / sn * ang / 0.25, ax[1] / sn * ang / 0.25, ax[2] / sn * ang / 0.25);
    double t = n.ref.latest().t; D3 a(0, 0, 9.81);
    n.imu(t + DT, a, rate); for (int i = 2; i <= 25; ++i) n.imu(t + DT * i, a, rate); n.imu(t + DT * 26, a, D3(0, 0, 0));
  }
}
static double now(Node& n) { return n.ref.latest().t; }
// A reading of sensor s consistent with state x, optionally displaced by d (in measurement coordinates).
static void readingFrom(Node& n, int s, double t, const V& x, const V& d = V(), const double* cov = nullptr, Node::PoseTopic tp = Node::PWC) {
  const ref::Sys& sys = n.ref.s; auto dd = [&](int i) { return i < d.size() ? d[i] : 0.0; };
  if (s == 0) {
    V3 hp; V4 hq; ref::poseModel(sys, x, hp, hq); D3 p(hp[0] + dd(0), hp[1] + dd(1), hp[2] + dd(2)); V4 z = ref::qmul(hq, ref::small(V3(dd(3), dd(4), dd(5)))); DQ q(z[0], z[1], z[2], z[3]);
    if (!n.pr.world_sensor) { D3 pi = -(q.toRotationMatrix().transpose() * p); n.pose(t, pi, q.conjugate(), cov, tp); return; }
    n.pose(t, p, q, cov, tp); return;
  }
  ref::Meas m; m.kind = s == 1 ? ref::POSITION : s == 2 ? ref::PRESSURE : s == 3 ? ref::ANGLE : ref::DISTANCE; V h = ref::vecModel(sys, m, x);
  if (s == 1) n.position(t, D3(h[0] + dd(0), h[1] + dd(1), h[2] + dd(2))); else if (s == 2) n.pressure(t, h[0] + dd(0)); else if (s == 3) n.angle(t, h[0] + dd(0), ref::wrap(h[1] + dd(1))); else n.distance(t, h[0] + dd(0));
}
static int rowsOf(int s) { return s == 0 ? 6 : s == 1 ? 3 : s == 3 ? 2 : 1; }
static void excite(Node& n) {      // make biases and auxiliary states leave their initial values
  for (int i = 0; i < 3; ++i) { int s = S[i % S.size()]; V d(6); d << 0.3, -0.2, 0.25, 0.05, -0.03, 0.04; if (s == 3) d.head(2) << 0.03, -0.05; readingFrom(n, s, now(n), n.ref.latest().x, d * (1 + 0.2 * i)); n.imu(now(n) + DT, accOf(i), gyrOf(i)); }
}
static Pars noisy() { Pars p = hpars(); p.core["core_noise_accbias"] = 0.1; p.core["core_noise_gyrbias"] = 0.1; for (auto s : {"pose_noise_scale", "pose_noise_p_wv", "pose_noise_q_wv", "pose_noise_p_ic", "pose_noise_q_ic", "position_noise_p_ip", "noise_p_ip"}) if (cfgHas<Cfg>(s)) p.cfg[s] = 0.3; return p; }
static void show(Node& n) { readingFrom(n, S[0], now(n), n.ref.latest().x); mc::require(n.ref.pubUpd, "harness", "nothing shown"); }

// ---- C06
static const vector<D3>& accs() { static const vector<D3> a = {D3(0, 0, 9.80834), D3(0, 0, 0), D3(3, -2, 12), D3(-20, 15, -30), D3(0.01, 0, 9.8), D3(0, 49.9, 0)}; return a; }
static const vector<D3>& gyrs() { static const vector<D3> a = {D3(0, 0, 0), D3(0.1, 0, 0), D3(0, -2, 0), D3(1, 2, -3), D3(8, -6, 4), D3(1e-6, 0, 1e-7), D3(0, 0, 12)}; return a; }
// fine integration of the strapdown equations with linearly interpolated readings
static V truth(const ref::Sys& s, const V& x, double dt, const V3& a0, const V3& w0, const V3& a1, const V3& w1) {
  V3 bw = s.g3(x, "b_w"), ba = s.g3(x, "b_a"), p = s.g3(x, "p"), v = s.g3(x, "v"); V4 q = s.g4(x, "q"); const int N = 64; double h = dt / N;
  auto at = [&](const V3& u, const V3& v, double f) -> V3 { return u + (v - u) * f; };
  for (int i = 0; i < N; ++i) {
    double f0 = (double)i / N, f5 = (i + 0.5) / N, f1 = (i + 1.0) / N;
    auto acc = [&](const V4& qq, double f) -> V3 { return ref::rot(qq) * (at(a0, a1, f) - ba) - V3(0, 0, 9.80834); };
    V4 qm = ref::qmul(q, ref::expq((at(w0, w1, f0) + at(w0, w1, f5) - 2 * bw) * (h / 4))), qe = ref::qmul(q, ref::expq((at(w0, w1, f5) - bw) * h));
    V3 k0 = acc(q, f0), km = acc(qm, f5), ke = acc(qe, f1);
    p += v * h + (k0 + 2 * km) * (h * h / 6); v += (k0 + 4 * km + ke) * (h / 6); q = ref::qnorm(qe);
  }
  V y = x; y.segment(s.at("p").s, 3) = p; y.segment(s.at("v").s, 3) = v; y.segment(s.at("q").s, 4) = q; return y;
}
static void c06step() {
  int a = mc::choose((int)atts().size()), ac = mc::choose((int)accs().size()), g = mc::choose((int)gyrs().size()); double dt = mc::pick(vector<double>{0.0005, 0.01, 0.05, 0.09}); int ex = mc::choose(2), same = mc::choose(2);
  Node n(ex ? noisy() : hpars()); bootAt(n, atts()[a]); if (ex) excite(n);
  n.imu(now(n) + DT, same ? accs()[ac] : accOf(2), same ? gyrs()[g] : gyrOf(2));
  ref::Node before = n.ref.latest(); n.imu(now(n) + dt, accs()[ac], gyrs()[g]);
  const ref::Node& af = n.ref.latest();
  // the published prediction (equal to the reference, checked above) against the differential equations
  V t = truth(n.ref.s, before.x, dt, before.a, before.w, af.a, af.w); const ref::Sys& s = n.ref.s;
  double A = std::sqrt(std::max(before.a.squaredNorm(), af.a.squaredNorm())) + 1, W = std::sqrt(std::max(before.w.squaredNorm(), af.w.squaredNorm())) + 0.5, dA = std::sqrt((af.a - before.a).squaredNorm()), dW = std::sqrt((af.w - before.w).squaredNorm());
  double bv = dt * dt * (dt * A * W * W + dA * W + A * dW) / 4 + 1e-10, bp = bv * dt + dt * dt * dt * (A * W + dA / dt) / 4 + 1e-10, bq = std::pow(dt, 5) * (std::pow(W, 5) + W * W * W * dW / dt) / 50 + std::pow(dt * dW, 3) / 500 + 1e-10;
  double ev = std::sqrt((s.g3(t, "v") - s.g3(af.x, "v")).squaredNorm()), ep = std::sqrt((s.g3(t, "p") - s.g3(af.x, "p")).squaredNorm()), eq = std::min(std::sqrt((s.g4(t, "q") - s.g4(af.x, "q")).squaredNorm()), std::sqrt((s.g4(t, "q") + s.g4(af.x, "q")).squaredNorm()));
  mc::note("against truth: v %.3g/%.3g p %.3g/%.3g q %.3g/%.3g", ev, bv, ep, bp, eq, bq);
  mc::require(ev <= bv && ep <= bp && eq <= bq, "prediction-not-kinematics", mc::fmt("after %g s: velocity off by %.3g (bound %.3g), position %.3g (%.3g), attitude %.3g (%.3g)", dt, ev, bv, ep, bp, eq, bq));
  n.imu(now(n) + DT, accOf(1), gyrOf(1)); show(n); mc::outcome(xhash(n.ref.latest().x));
}
static void c06spikes(int len) {
  static const vector<D3> A = {D3(0.2, -0.1, 9.7), D3(0, 49.99, 0), D3(35, 36, 0.1), D3(0, 0, -1e6), D3(-1, 2, 8)};
  Node n(hpars()); boot(n, mc::choose(2) ? 4 : 0); double t = n.ref.st.rbegin()->first;
  for (int i = 0; i < len; ++i) { int c = mc::choose(6); if (c == 5) { t += 0.001; n.init(t, 1.1); } else { t += DT; n.imu(t, A[c], gyrOf(i)); } }
  while (!n.ref.predicted) { t += DT; n.imu(t, A[3], gyrOf(1)); } t += DT; n.imu(t, A[0], gyrOf(2)); show(n); mc::outcome(xhash(n.ref.latest().x));
}
static void c06slide() {           // many steps: constant rotation and acceleration, still lock-step, auxiliary states constant
  int a = mc::choose(4), ac = mc::choose(5), g = mc::choose(7), ex = mc::choose(2); Node n(ex ? noisy() : hpars()); bootAt(n, atts()[a]); if (ex) excite(n); V x0 = n.ref.latest().x;
  for (int i = 0; i < 40; ++i) n.imu(now(n) + 0.02, accs()[ac], gyrs()[g]);
  V x1 = n.ref.latest().x; for (auto& v : n.ref.s.vars) if (v.name != "p" && v.name != "v" && v.name != "q") mc::require((x1 - x0).segment(v.s, v.n).squaredNorm() == 0, "harness", v.name);
  show(n); mc::outcome(xhash(x1));
}
// ---- C07
static vector<std::pair<std::string, vector<double>>> noises() {
  vector<std::pair<std::string, vector<double>>> r = {{"core_noise_acc", {0.1, 0.5}}, {"core_noise_accbias", {0.01, 0.1}}, {"core_noise_gyr", {0.1, 0.5}}, {"core_noise_gyrbias", {0.02, 0.1}}};
  for (auto s : {"pose_noise_scale", "pose_noise_p_wv", "pose_noise_q_wv", "pose_noise_p_ic", "pose_noise_q_ic", "position_noise_p_ip", "noise_p_ip", "press_noise_bias_p"}) if (cfgHas<Cfg>(s)) r.push_back({s, {0.3, 4}});
  return r;
}
static void c07(bool pairs) {
  auto N = noises(); int i = mc::choose((int)N.size()), vi = mc::choose(2), j = pairs ? mc::choose((int)N.size()) : i, vj = pairs ? mc::choose(2) : vi; if (pairs && j <= i) throw mc::Prune();
  int a = mc::choose(pairs ? 2 : 5), mo = mc::choose(pairs ? 2 : 3), st = mc::choose(pairs ? 2 : 4); double dt = pairs ? 0.03 : mc::pick(vector<double>{0.002, 0.05, 0.09});
  Node n(hpars()); bootAt(n, atts()[a + (pairs ? 1 : 0)]);
  auto set = [&](const std::string& nm, double v) { if (nm.compare(0, 5, "core_") == 0) n.setCore(nm, v); else n.setCfg(nm, v); };
  set(N[i].first, N[i].second[vi]); set(N[j].first, N[j].second[vj]);
  static const D3 ac[3] = {D3(2, -3, 11), D3(0, 0, 9.8), D3(-15, 20, -8)}, gy[3] = {D3(0.5, 1, -2), D3(0, 0, 0), D3(6, -4, 3)};
  static const int steps[4] = {1, 2, 5, 12};
  for (int k = 0; k < steps[st]; ++k) n.imu(now(n) + dt * (1 + 0.1 * (k % 3)), ac[mo] + D3(0.1 * k, 0, 0), gy[mo]);
  show(n); mc::outcome(mc::mix(xhash(n.ref.latest().x), (uint64_t)(1e9 * n.ref.latest().P.trace())));
}
static void c07derivative() {      // transition of the reference = derivative of the state prediction, up to truncation
  int a = mc::choose((int)atts().size()), ac = mc::choose((int)accs().size()), g = mc::choose(6), ex = mc::choose(2); double dt = mc::pick(vector<double>{0.001, 0.005, 0.01, 0.02, 0.05});
  Node n(ex ? noisy() : hpars()); bootAt(n, atts()[a]); if (ex) excite(n); n.imu(now(n) + DT, accs()[ac], gyrs()[g]);
  ref::Node b = n.ref.latest(); n.imu(now(n) + dt, accs()[ac], gyrs()[g]); const ref::Node& af = n.ref.latest(); const ref::Sys& s = n.ref.s;
  Mat F = n.ref.st.find(b.t)->second.F;
  auto f = [&](int i, double e) -> V { V d = V::Zero(s.ne); d[i] = e; V y = ref::propagate(s, s.boxplus(b.x, d), dt, b.a, b.w, af.a, af.w), r(s.ne); for (auto& v : s.vars) { if (v.quat) r.segment(v.eo, 3) = ref::attErr(af.x.segment(v.s, 4), y.segment(v.s, 4)); else r.segment(v.eo, v.n) = y.segment(v.s, v.n) - af.x.segment(v.s, v.n); } return r; };
  double A = std::sqrt(std::max(af.a.squaredNorm(), b.a.squaredNorm())) + 1, W = std::sqrt(std::max(af.w.squaredNorm(), b.w.squaredNorm())) + 0.5, worst = 0; std::string wh;
  for (int i = 0; i < 15; ++i) {
    V col = (f(i, 1e-4) - f(i, -1e-4)) / 2e-4;
    for (int j = 0; j < s.ne; ++j) {
      // leading order of each block of the truncated series; the rotation used is the one at the end of the step
      double lead = 1e-7; int bj = j / 3, bi = i / 3; double t = dt;
      if (bj == 0 && bi == 2) lead += 0.8 * A * W * t*t*t; else if (bj == 0 && bi == 3) lead += A * t*t*t; else if (bj == 0 && bi == 4) lead += 1.2 * W * t*t*t;
      else if (bj == 1 && bi == 2) lead += 0.8 * A * W * t*t; else if (bj == 1 && bi == 3) lead += 0.8 * A * t*t * (0.1 + W * t) + A*t*t; else if (bj == 1 && bi == 4) lead += 0.8 * W * t*t;
      else if (bj == 2 && bi == 2) lead += std::pow(W * t, 3) * 0.4; else if (bj == 2 && bi == 3) lead += W * W * t*t*t * 0.4;
      double e = std::fabs(col[j] - F(j, i)); if (e / lead > worst) { worst = e / lead; wh = mc::fmt("d(%d)/d(%d): derivative %.9g, transition %.9g, bound %.3g", j, i, col[j], F(j, i), lead); }
    }
  }
  mc::note("worst %.3g: %s", worst, wh.c_str()); mc::require(worst <= 1, "transition-not-derivative", wh); show(n); mc::outcome((uint64_t)(worst * 1e6));
}
// ---- C08 / C09

static void c08consistent() {
  int a = mc::choose((int)atts().size()), e = mc::choose(3), ex = mc::choose(2); Pars p = ex ? noisy() : hpars(); bool world = HASPOSE ? !mc::choose(2) : true; p.world_sensor = world;
  if (e == 1) { p.q_ic = axq(2.7, -1, 1, 0.4); p.p_ic = D3(1, 2, -3); p.p_ip = D3(4, -2, 1); } else if (e == 2) { p.q_ic = DQ(1, 0, 0, 0); p.p_ic = p.p_ip = D3(0, 0, 0); }
  double scale = HASPOSE ? mc::pick(vector<double>{1, 0.2, 7}) : 1; int s = mc::pick(S), kick = mc::choose(3);
  Node n(p); bootAt(n, atts()[a], 5, scale, a % 2 ? D3(-7.1, 4, -5.4) : D3(1.1, -2.3, 3.4)); if (ex) excite(n);
  V x0 = n.ref.latest().x;
  if (!kick) { readingFrom(n, s, now(n), x0); Real r; mc::require(n.readFull(r), "missing-update", "no update"); std::string w; double d = n.devX(r.x, x0, &w); mc::require(d < 1e-8, "consistent-reading-moves-estimate", w); }
  else { int c = mc::choose(rowsOf(s)); V d = V::Zero(6); d[c] = kick == 1 ? 0.02 : -0.07; if (s == 0 && c >= 3 && mc::choose(2)) d[c] *= 12; if (s == 1 || s == 0) if (c < 3) d[c] *= 20; readingFrom(n, s, now(n), x0, d); }
  n.imu(now(n) + DT, accOf(1), gyrOf(1)); show(n); mc::outcome(xhash(n.ref.latest().x));
}
static void c08single() {         // truth differs from the estimate in one state
  int a = mc::choose(4); Pars p = noisy(); p.world_sensor = HASPOSE ? !mc::choose(2) : true; for (auto s : {"pose_noise_meas_p", "pose_noise_meas_q", "position_noise_meas", "press_noise_meas_p", "angle_noise_meas", "distance_noise_meas"}) if (cfgHas<Cfg>(s)) p.cfg[s] = 0.003;
  Node n(p); bootAt(n, atts()[a]); if (mc::choose(2)) excite(n); const ref::Sys& sys = n.ref.s; int s = mc::pick(S), dim = mc::choose(sys.ne), sg = mc::choose(2);
  ref::Node b = n.ref.latest(); V d = V::Zero(sys.ne); d[dim] = (sg ? -1 : 1) * 0.02; V tr = sys.boxplus(b.x, d);
  ref::Meas m; m.kind = s == 0 ? ref::POSE : s == 1 ? ref::POSITION : s == 2 ? ref::PRESSURE : s == 3 ? ref::ANGLE : ref::DISTANCE;
  readingFrom(n, s, now(n), tr); Real r; mc::require(n.readFull(r), "missing-update", "no update");
  // predicted reading gets closer to the reading; error in the metric of the covariance shrinks
  auto resid = [&](const V& x) -> V { if (s == 0) { V3 p1, p2; V4 q1, q2; ref::poseModel(sys, x, p1, q1); ref::poseModel(sys, tr, p2, q2); V e(6); e << p2 - p1, ref::attErr(q1, q2); return e; } V e = ref::vecModel(sys, m, tr) - ref::vecModel(sys, m, x); if (s == 3) e[1] = ref::wrap(e[1]); return e; };
  double e0 = std::sqrt(resid(b.x).squaredNorm()), e1 = std::sqrt(resid(r.x).squaredNorm()); mc::check();
  mc::note("misfit %.3g -> %.3g", e0, e1);
  if (e0 > 1e-6 && !(e1 < e0 * 0.9)) mc::fail("correction-away-from-reading", mc::fmt("one state off by 0.02: misfit %.3g before, %.3g after", e0, e1));
  auto err = [&](const V& x) -> V { V e(sys.ne); for (auto& v : sys.vars) { if (v.quat) e.segment(v.eo, 3) = ref::attErr(x.segment(v.s, 4), tr.segment(v.s, 4)); else e.segment(v.eo, v.n) = tr.segment(v.s, v.n) - x.segment(v.s, v.n); } return e; };
  Mat Pi = b.P.inverse(); V ea = err(b.x), eb = err(r.x); double m0 = ea.dot(Pi * ea), m1 = eb.dot(Pi * eb);
  mc::require(m1 < m0 * 1.05 + 1e-3, "correction-away-from-truth", mc::fmt("weighted error %.4g before, %.4g after", m0, m1));
  n.imu(now(n) + DT, accOf(1), gyrOf(1)); show(n); mc::outcome(mc::mix(dim * 2 + sg, xhash(r.x)));
}
static void c08sphere() {         // all directions around the station, in particular all quadrants and near the poles
  int el = mc::choose(5), az = mc::choose(9), rr = mc::choose(3); Pars p = hpars(); Node n(p); n.tolx = n.tolP = 1e-6; double th[5] = {0.12, 0.7, 1.57, 2.4, 3.0}, R[3] = {0.8, 5, 900}, ph = -3.1 + az * 0.775;
  n.angle(T0 - 1, th[el], ph); n.distance(T0 - 1, R[rr]); n.setCfg("yaw_init", 40); n.init(T0); for (int k = 1; k <= 5; ++k) feedImu(n, k);
  for (int i = 0; i < 3; ++i) { int s = S[i % 2]; V d(2); d << (s == 3 ? 0.004 : 0.05), -0.006; readingFrom(n, s, now(n), n.ref.latest().x, d); n.imu(now(n) + DT, accOf(i), gyrOf(i)); }
  n.angle(now(n), th[el], ph > 0 ? ph - 0.01 : ph + 0.01); n.imu(now(n) + DT, accOf(3), gyrOf(3)); show(n); mc::outcome(xhash(n.ref.latest().x));
}
static vector<std::string> fixables() { vector<std::string> r; for (auto s : {"pose_fixed_scale", "pose_fixed_p_ic", "pose_fixed_q_ic", "pose_fixed_p_wv", "pose_fixed_q_wv", "position_fixed_p_ip", "fixed_p_ip"}) if (cfgHas<Cfg>(s)) r.push_back(s); return r; }
static const std::map<std::string, std::string>& fixState() { static const std::map<std::string, std::string> m = {{"pose_fixed_scale", "L"}, {"pose_fixed_p_ic", "p_ic"}, {"pose_fixed_q_ic", "q_ic"}, {"pose_fixed_p_wv", "p_wv"}, {"pose_fixed_q_wv", "q_wv"}, {"position_fixed_p_ip", "p_ip"}, {"fixed_p_ip", "p_ip"}}; return m; }
static void checkNotLarger(const Mat& P0, const Mat& P1) {
  // scaled so that the smallest variances count as well
  V sc = P0.diagonal().cwiseAbs().cwiseSqrt().cwiseInverse(); Mat D = sc.asDiagonal() * (P0 - P1) * sc.asDiagonal(); D = ((D + D.transpose()) / 2).eval();
  double e = Eigen::SelfAdjointEigenSolver<Mat>(D).eigenvalues().minCoeff(); mc::require(e > -1e-8, "covariance-grew", mc::fmt("prior minus posterior covariance has the (scaled) eigenvalue %.3g", e));
}
static void c09fixed() {
  auto F = fixables(); int a = mc::choose(2), mask = mc::choose(1 << F.size()), fb = mc::choose(2), late = mc::choose(2);
  Pars p = noisy(); if (!late) for (size_t i = 0; i < F.size(); ++i) if (mask >> i & 1) p.cfg[F[i]] = 1; if (fb && !late) p.core["core_fixed_bias"] = 1;
  Node n(p); bootAt(n, atts()[1 + a]); if (late) { excite(n); for (size_t i = 0; i < F.size(); ++i) if (mask >> i & 1) n.setCfg(F[i], 1); if (fb) n.setCore("core_fixed_bias", 1); }
  V x0 = n.ref.latest().x;
  for (int u = 0; u < 4; ++u) {
    int s = S[u % S.size()]; V d(6); d << 0.4, -0.3, 0.5, 0.05, -0.06, 0.03; if (s == 3) d.head(2) << 0.02, 0.03;
    Mat Pb = n.ref.latest().P; readingFrom(n, s, now(n), n.ref.latest().x, d * (1 + u)); Real r; mc::require(n.readFull(r), "missing-update", "no update");
    for (size_t i = 0; i < F.size(); ++i) if (mask >> i & 1) {
      bool mine = (s == 0) == (F[i].compare(0, 5, "pose_") == 0) && s != 2; const ref::Var& v = n.ref.s.at(fixState().at(F[i])); if (!mine) { if (S.size() == 1 || s == 2) {} continue; }
      double mv = std::sqrt((r.x - n.ref.latest().x).segment(v.s, v.n).squaredNorm()); (void)mv;
      bool always = S.size() == 1 || n.isSph(); if (always) mc::require(std::sqrt((r.x - x0).segment(v.s, v.n).squaredNorm()) < 1e-8, "fixed-state-moved", F[i] + " has no effect");
      for (int k = 0; k < n.ref.s.ne; ++k) for (int c = 0; c < v.e; ++c) if (k < v.eo || k >= v.eo + v.e) mc::require(std::fabs(r.P(k, v.eo + c)) < 1e-12, "fixed-state-correlated", F[i]);
    }
    if (fb) mc::require((r.x - x0).segment(n.ref.s.at("b_w").s, 6).squaredNorm() < 1e-18, "fixed-bias-moved", "bias estimates moved although fixed");
    if (mask == 0) checkNotLarger(Pb, r.P);
    n.imu(now(n) + DT, accOf(u), gyrOf(u));
  }
  show(n); mc::outcome(xhash(n.ref.latest().x));
}
static void c09levels() {         // noise levels of the reading and of the prior
  vector<const char*> L; for (auto s : {"pose_noise_meas_p", "pose_noise_meas_q", "position_noise_meas", "press_noise_meas_p", "angle_noise_meas", "distance_noise_meas"}) if (cfgHas<Cfg>(s)) L.push_back(s);
  static const double lev[4] = {0.0005, 0.01, 0.3, 9}; Pars p = hpars(); for (auto s : L) p.cfg[s] = lev[mc::choose(4)];
  int prior = mc::choose(3), a = mc::choose(2), first = mc::choose((int)S.size()); if (prior) { double v[3] = {0, 0.05, 2}; for (auto& N : noises()) if (N.first.compare(0, 5, "core_")) p.cfg[N.first] = v[prior]; p.core["core_noise_acc"] = 0.2 * prior; p.core["core_noise_gyr"] = 0.2 * prior; }
  Node n(p); bootAt(n, atts()[1 + a]);
  for (int u = 0; u < 5; ++u) {
    int s = S[(u + first) % S.size()]; V d(6); d << 0.2, -0.1, 0.15, 0.02, -0.03, 0.01; if (s == 3) d.head(2) << 0.01, -0.02; if (u % 2) d = -0.7 * d;
    Mat Pb = n.ref.latest().P; readingFrom(n, s, now(n), n.ref.latest().x, d); Real r; mc::require(n.readFull(r), "missing-update", "no update"); checkNotLarger(Pb, r.P);
    n.imu(now(n) + 0.02, accOf(u), gyrOf(u));
  }
  mc::outcome(xhash(n.ref.latest().x));
}
static void c09message() {        // covariance taken from the message
  if (!HASPOSE) throw mc::Prune();
  int a = mc::choose(5), kind = mc::choose(4), inv = mc::choose(2), odo = mc::choose(2), off = mc::choose(2); Pars p = hpars(); p.pose_fixedcov = false; p.world_sensor = !inv; Node n(p);
  double c[36] = {0}; double b[4][6] = {{0.01, 0.01, 0.01, 0.01, 0.01, 0.01}, {0.04, 0.5, 0.002, 0.003, 0.2, 0.01}, {2, 1e-4, 0.3, 1e-3, 0.05, 0.6}, {1e-6, 1e-6, 1e-6, 1e-6, 1e-6, 1e-6}};
  for (int i = 0; i < 6; ++i) c[7 * i] = b[kind][i];
  if (off) for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) if (i / 3 == j / 3) c[6 * i + j] = c[6 * j + i] = (i + j) % 2 ? 0.4 * std::sqrt(b[kind][i] * b[kind][j]) : -0.3 * std::sqrt(b[kind][i] * b[kind][j]);
  { // boot with covariance
    V x = n.ref.s.zero(); x.segment(0, 3) = V3(1, -2, 3); x.segment(n.ref.s.at("q").s, 4) = R4(atts()[a]); x[n.ref.s.at("L").s] = 1.2; x.segment(n.ref.s.at("q_ic").s, 4) = R4(p.q_ic); x.segment(n.ref.s.at("p_ic").s, 3) = R3(p.p_ic);
    readingFrom(n, 0, T0 - 1, x, V(), c); for (int s : S) if (s) deliver(n, {s, T0 - 1.01, 0}); n.init(T0, 1.2); for (int k = 1; k <= 5; ++k) feedImu(n, k);
  }
  for (int u = 0; u < 3; ++u) { V d(6); d << 0.2, -0.1, 0.15, 0.05, -0.06, 0.04; Mat Pb = n.ref.latest().P; readingFrom(n, 0, now(n), n.ref.latest().x, u == 1 ? V(-d) : d, c, odo ? Node::ODOM : Node::PWC); Real r; mc::require(n.readFull(r), "missing-update", "no update"); checkNotLarger(Pb, r.P); n.imu(now(n) + DT, accOf(u), gyrOf(u)); }
  mc::outcome(xhash(n.ref.latest().x));
}
// ---- C10
static void expectInit(Node& n, bool readings, double t0) {
  // The estimate right after initialization, made visible by one very short prediction and by a later weak reading.
  const ref::Sys& s = n.ref.s; V x = n.ref.latest().x;
  if (readings) for (int sn : S) {
    if (sn == 0) { V3 hp; V4 hq; ref::poseModel(s, x, hp, hq); mc::require(std::sqrt((hp - n.zp).squaredNorm()) < 1e-9 * (1 + std::sqrt(n.zp.squaredNorm())) && std::min((hq - n.zq).squaredNorm(), (hq + n.zq).squaredNorm()) < 1e-16, "init-inconsistent-reference", "reference initial state does not reproduce the pose"); }
  }
  V4 q = s.g4(x, "q"); D3 g; { V3 a = ref::rot(ref::qconj(q)) * V3(0, 0, 9.81); g = D3(a[0], a[1], a[2]); }
  n.imu(t0 + 1e-4, g, D3(0, 0, 0));        // lock-step: pose and velocity right after init
  auto e = n.w.last<sensor_fusion_comm::ExtState>("/msf_core/ext_state"); mc::require(e && std::fabs(e->velocity.x) + std::fabs(e->velocity.y) + std::fabs(e->velocity.z) < 1e-5, "velocity-after-init", "velocity is not zero after initialization");
  auto ps = n.w.last<geometry_msgs::PoseWithCovarianceStamped>("/msf_core/pose"); mc::require((bool)ps, "missing-output", "no pose after initialization");
  { V y = x; auto& pp = ps->pose.pose; y.segment(0, 3) = V3(pp.position.x, pp.position.y, pp.position.z); y.segment(s.at("q").s, 4) = R4(DQ(pp.orientation.w, pp.orientation.x, pp.orientation.y, pp.orientation.z));
    if (readings) for (int sn : S) {
      ref::Meas m; m.kind = sn == 0 ? ref::POSE : sn == 1 ? ref::POSITION : sn == 2 ? ref::PRESSURE : sn == 3 ? ref::ANGLE : ref::DISTANCE; double err = 0, mag = 1;
      if (sn == 0) { V3 hp; V4 hq; ref::poseModel(s, y, hp, hq); err = std::sqrt((hp - n.zp).squaredNorm()) + std::sqrt(std::min((hq - n.zq).squaredNorm(), (hq + n.zq).squaredNorm())); mag += std::sqrt(n.zp.squaredNorm()); }
      else { V h = ref::vecModel(s, m, y); if (sn == 1) { err = std::sqrt((h - n.zpos).squaredNorm()); mag += std::sqrt(n.zpos.squaredNorm()); } else if (sn == 2) { err = std::fabs(h[0] - n.zpress); mag += std::fabs(h[0]); } else if (sn == 3) err = std::fabs(h[0] - n.zang0) + std::fabs(std::sin((h[1] - n.zang1) / 2)); else { err = std::fabs(h[0] - n.zdist); mag += h[0]; } }
      mc::require(err < 1e-6 * mag, "init-disagrees-with-reading", mc::fmt("sensor %d: reading predicted after initialization is off by %.3g", sn, err));
    } }
  // a sample that repeats the assumed initial acceleration must not move the filter, one without gravity must
  for (int k = 1; k <= 4; ++k) n.imu(t0 + 1e-4 + 0.005 * k, g, D3(0, 0, 0));
  readingFrom(n, S[0], now(n), n.ref.latest().x); Real r; mc::require(n.readFull(r), "missing-update", "no update"); mc::require((r.x - x).segment(s.at("b_w").s, 6).squaredNorm() < 1e-16, "bias-after-init", "biases are not zero after initialization");
  mc::outcome(xhash(r.x));
}
static void c10(int how) {
  static const vector<DQ> A = [] { vector<DQ> v = atts(); v.push_back(DQ(0, 1, 0, 0)); v.push_back(DQ(0, 0, -0.6, 0.8)); return v; }();      // also exact half turns
  int a = mc::choose((int)A.size()), e = mc::choose(3), pos = mc::choose(3); Pars p = hpars(); p.world_sensor = HASPOSE ? !mc::choose(2) : true;
  if (e == 1) { p.q_ic = axq(2.7, -1, 1, 0.4); p.p_ic = D3(1, 2, -3); p.p_ip = D3(4, -2, 1); } else if (e == 2) { p.noextr = true; p.p_ic = p.p_ip = D3(0, 0, 0); p.q_ic = DQ(1, 0, 0, 0); }
  static const D3 P[3] = {D3(0.5, -0.3, 2), D3(-120, 40, -7), D3(1e-3, 30, 0.4)}; int have = how == 0 ? mc::choose(1 << S.size()) : (1 << S.size()) - 1, stale = mc::choose(2), yaw = cfgHas<Cfg>("position_yaw_init") || cfgHas<Cfg>("yaw_init") ? mc::choose(4) : 0;
  Node n(p); if (n.isSph() && have != 3) throw mc::Prune();
  if (yaw) n.setCfg(n.isSph() ? "yaw_init" : "position_yaw_init", yaw == 1 ? 30 : yaw == 2 ? -135 : 180);
  if (stale) for (int s : S) if (have >> (s == S[0] ? 0 : 1) & 1) deliver(n, {s, T0 - 2, 9});
  for (size_t i = 0; i < S.size(); ++i) if (have >> i & 1) {
    int s = S[i]; if (s == 0) n.pose(T0 - 1, P[pos], A[a]); else if (s == 1) n.position(T0 - 1, P[pos] * 1.5 + D3(0.2, 0, 0)); else if (s == 2) n.pressure(T0 - 1, P[pos][2] * 3 + 11); else if (s == 3) n.angle(T0 - 1, 0.4 + a % 7 * 0.4, -3 + 0.8 * (a % 7) + pos); else n.distance(T0 - 1, 0.7 + pos * 20);
  }
  bool all = have == (1 << S.size()) - 1;
  if (how == 0) { double sc = HASPOSE ? mc::pick(vector<double>{1, 0.05, 25}) : 1; n.init(T0, sc); expectInit(n, all, T0); }
  else if (how == 1) { double sc = mc::pick(vector<double>{1, 0.01, 100, 2.5}); mc::require(n.initScale(T0, sc), "scale-service-result", "scale initialization failed"); mc::require(std::fabs(n.ref.latest().x[n.ref.s.at("L").s] - sc) < 1e-6 * sc, "harness", "scale"); expectInit(n, all, T0); }
  else if (how == 2) { double h = mc::pick(vector<double>{1.5, -2, 0.005, -0.009, 0, 40, 0.011}); bool ok = n.initHeight(T0, h); if (ok) { V3 hp; V4 hq; if (n.ref.latest().x[n.ref.s.at("L").s] <= 0) { n.imu(T0 + DT, accOf(0), gyrOf(0)); return; } // unscaled height of the sensor
        const ref::Sys& s = n.ref.s; V x = n.ref.latest().x; double z = (s.g3(x, "p") + ref::rot(s.g4(x, "q")) * s.g3(x, "p_ic"))[2]; mc::require(std::fabs(z - (float)h) < 1e-5 * (1 + std::fabs(h)), "harness", "height"); expectInit(n, true, T0); } else { for (int k = 1; k < 5; ++k) feedImu(n, k); mc::require(n.w.out.empty(), "failed-init-starts-filter", "output although initialization failed"); } }
  else { double h = mc::pick(vector<double>{0.5, 2, 15}); n.setHeight(T0, h); if (n.ref.latest().x[n.ref.s.at("L").s] > 0) expectInit(n, true, T0); else n.imu(T0 + DT, accOf(0), gyrOf(0)); }
}
static void c10refused() {        // requests that cannot be satisfied, before and while running
  int running = mc::choose(2), rd = mc::choose(4), how = mc::choose(3); Node n(hpars());
  if (rd == 1) n.pose(T0 - 2, D3(1, 2, 3), atts()[1]); if (rd == 2) n.pose(T0 - 2, D3(0, 0, 0), atts()[1]); if (rd == 3) n.pose(T0 - 2, D3(1, -2, 0), atts()[1]);
  if (running) { n.init(T0, 1.1); for (int k = 1; k <= 5; ++k) feedImu(n, k); }
  double h = mc::pick(vector<double>{0.005, 2, -3}); double t = T0 + 0.0501;
  if (how == 0 && std::string(KIND) == "pose") n.initHeight(t, h); else if (how == 1) { if (h < 0.1) throw mc::Prune(); n.setHeight(t, h); } else n.setHeight(t, 5);
  for (int k = 6; k <= 11; ++k) feedImu(n, k); if (n.ref.inited) { if (n.ref.latest().x[n.ref.s.at("L").s] > 0) show(n); } mc::outcome(n.hash());
}
// ---- C11
static void c11throttle(int len) {
  Pars p = hpars(); p.min_dt = mc::pick(vector<double>{0.05, 0.021, 0}); Node n(p); boot(n, 60); double t = T(30);
  for (int i = 0; i < len; ++i) { t += mc::pick(vector<double>{0.0485, 0.0495, 0.0202, 0.0195, 0.001, -0.03, -0.072}); deliver(n, {0, t, i + 1}); }
  feedImu(n, 61); mc::outcome(mc::mix(n.ref.updates, xhash(n.ref.latest().x)));
}
static void c11delay() {
  int s = mc::pick(S); if (s == 2) throw mc::Prune(); Pars p = hpars(); Node n(p); boot(n, 30);
  const char* nm = s == 0 ? "pose_delay" : s == 1 ? "position_delay" : s == 3 ? "angle_delay" : "distance_delay"; double d = mc::pick(vector<double>{0, 0.02, 0.133, -0.04, -0.2, 2, -2, 0.3}), d2 = mc::pick(vector<double>{0, 0.02, -0.06}); int o = mc::choose(2);
  n.setCfg(nm, d); deliver(n, {s, T(30), 1}); if (o) feedImu(n, 31); n.setCfg(nm, d2); deliver(n, {s, T(30 + o), 2}); int k = 30 + o;
  if (!n.ref.queue.empty() && n.ref.queue.back().t < T(60)) while (!n.ref.queue.empty()) feedImu(n, ++k); feedImu(n, ++k); n.setCfg(nm, 0); deliver(n, {s, T(k), 3}); mc::outcome(mc::mix(n.ref.updates, xhash(n.ref.latest().x)));
}
static void c11topics() {         // equivalent readings through different message types; decimation; missing covariance
  if (!HASPOSE) throw mc::Prune();
  int fixed = mc::choose(2), inv = mc::choose(2); Pars p = hpars(); p.pose_fixedcov = fixed; p.world_sensor = !inv; bool shared = std::string(KIND) == "position_pose"; int nt = shared ? 3 : 4;
  Node::PoseTopic tp[4] = {Node::PWC, Node::ODOM, Node::POSESTAMPED, Node::TRANSFORM}; double c[36] = {0}; for (int i = 0; i < 6; ++i) c[7 * i] = 0.01 * (i + 1); c[1] = c[6] = 0.004; c[22] = c[27] = -0.008; c[3] = c[18] = 0.002; if (mc::choose(2)) for (double& v : c) v *= 1e-4;
  Node n(p); n.pose(T0 - 1, D3(1, 2, 3), atts()[1], c); for (int s : S) if (s) deliver(n, {s, T0 - 1.01, 0}); n.init(T0, 1.2); for (int k = 1; k <= 5; ++k) feedImu(n, k);
  for (int i = 0; i < 4; ++i) { int t = mc::choose(nt), withcov = t < 2 ? 1 : 0; readingFrom(n, 0, now(n), n.ref.latest().x, (V(6) << 0.05 * i, 0.1, -0.1, 0.01, 0.02 * i, 0).finished(), withcov ? c : nullptr, tp[t]); n.imu(now(n) + DT, accOf(i), gyrOf(i)); }
  readingFrom(n, 0, now(n), n.ref.latest().x, V(), c); mc::outcome(mc::mix(n.ref.updates, xhash(n.ref.latest().x)));
}
static void c11sequence() {       // decimation by sequence number, every pattern
  Node n(hpars()); boot(n, 5); int last = S.back();
  for (int i = 0; i < 5; ++i) {
    int c = mc::choose(3); if (last == 2) n.pressure(now(n), 0.5 + 0.1 * i, c != 1); else if (last == 1 && std::string(KIND) == "position") { // transform topic, every fifth
      if (c == 1) { n.w.out.clear(); auto g = boost::make_shared<geometry_msgs::TransformStamped>(); g->header.stamp = ros::Time(now(n)); g->header.seq = 5 * i + 1 + i % 4; g->transform.translation.x = 55; n.w.deliver<geometry_msgs::TransformStamped>("/msf_updates/transform_input", g); n.ref.begin(); n.compare(); }
      else n.position(now(n), D3(1 + 0.1 * i, 2, 3), c ? Node::PTRANSFORM : Node::POINT); }
    else throw mc::Prune();
    n.imu(now(n) + DT, accOf(i), gyrOf(i));
  }
  show(n); mc::outcome(mc::mix(n.ref.updates, xhash(n.ref.latest().x)));
}
static void c11gps() {            // fixes relative to the first one; covariance source; mixed with point readings
  if (std::find(S.begin(), S.end(), 1) == S.end()) throw mc::Prune();
  static const double refs[5][3] = {{47.4, 8.5, 400}, {-33.9, 151.2, 20}, {0.01, -179.99, 0}, {78, 15, 3000}, {51.5, -0.1, -5}}; const double* r = refs[mc::choose(5)];
  Pars p = hpars(); p.pos_fixedcov = mc::choose(2); p.cfg["position_noise_meas"] = 0.7; Node n(p); int first = mc::choose(2), ct = mc::choose(4); double c[9] = {0.5, 0.1, 0, 0.1, 0.4, -0.05, 0, -0.05, 0.9}; if (double m = mc::choose(2) ? 5e-5 : 1) for (double& v : c) v *= m;      // metres, millimetres
  auto fix = [&](double t, double dn, double de, double du, int type) { double x[3] = {r[0] + dn, r[1] + de, r[2] + du}; n.gps(t, x[0], x[1], x[2], enuOf(r, x), c, type); };
  if (HASPOSE) deliver(n, {0, T0 - 1, 0});
  if (first) fix(T0 - 0.9, 0, 0, 0, ct); else { n.lockstep = false; fix(T0 - 0.9, 0, 0, 0, 0); n.lockstep = true; if (p.pos_fixedcov) n.posMeas(T0 - 0.9, V3(0, 0, 0), nullptr); fix(T0 - 0.5, 1e-5, -2e-5, 3, 2); }
  n.init(T0, 1.2); for (int k = 1; k <= 5; ++k) feedImu(n, k);
  n.tolx = n.tolP = 1e-6;        // earth-centred coordinates have 1e-9 m resolution, covariance passes them through unscaled
  for (int i = 0; i < 4; ++i) { int e = mc::choose(4); if (e == 3) n.position(now(n), D3(1, 2, 0.5 * i)); else fix(now(n), 1e-5 * i, -3e-6 * (e + 1), 0.7 * i, e == 2 ? ct : e + 1); n.imu(now(n) + DT, accOf(i), gyrOf(i)); }
  mc::outcome(mc::mix(n.ref.updates, xhash(n.ref.latest().x)));
}
// ---- C21
struct Param { std::string name; vector<double> v; bool core; };
static vector<Param> params() {
  vector<Param> r;
  auto vals = [](const std::string& n, double lo, double hi) -> vector<double> {
    if (hi <= 1 && lo >= 0 && (n.find("fixed") != std::string::npos)) return {1};
    if (n.find("delay") != std::string::npos) return {0.025, -0.013};
    if (n.find("yaw") != std::string::npos) return {77, -120};
    if (n.find("noise_meas") != std::string::npos) return {0.003, 1.7};
    if (n.find("core_noise") == 0) return {hi * 0.6, std::sqrt(lo * hi)};
    if (n.find("noise") != std::string::npos) return {0.2, 2.5};
    if (n == "pose_initial_scale") return {0.4, 6}; return {};
  };
  Cfg::forEach([&](const char* nm, auto m, unsigned, double lo, double hi) { auto v = vals(nm, lo, hi); if (!v.empty()) r.push_back({nm, v, false}); });
  msf_core::MSF_CoreConfig::forEach([&](const char* nm, auto m, unsigned, double lo, double hi) { auto v = vals(nm, lo, hi); if (!v.empty()) r.push_back({nm, v, true}); });
  return r;
}
static void history(Node& n, std::function<void()> midway, std::function<void()> before = [] {}) {
  before(); for (int s : S) deliver(n, {s, T0 - 1 - 0.01 * s, 0}); double sc = cfgHas<Cfg>("pose_initial_scale") ? n.C("pose_initial_scale") : 1; n.init(T0, sc);
  for (int k = 1; k <= 8; ++k) feedImu(n, k);
  for (int u = 0; u < 6; ++u) { int s = S[u % S.size()]; V d(6); d << 0.2, -0.1, 0.15, 0.02, -0.03, 0.01; if (s == 3) d.head(2) << 0.01, -0.02; if (u == 3) midway(); readingFrom(n, s, now(n), n.ref.latest().x, d * (1 + u)); n.imu(now(n) + DT, accOf(u), gyrOf(u)); n.imu(now(n) + DT, accOf(u + 1), gyrOf(u)); }
  for (int k = 0; k < 4 && !n.ref.queue.empty(); ++k) n.imu(now(n) + DT, accOf(k), gyrOf(k));
}
static void apply(Node& n, const Param& q, double v) { if (q.core) n.setCore(q.name, v); else n.setCfg(q.name, v); }
static void c21single() {
  auto P = params(); const Param& q = P[mc::choose((int)P.size())]; double v = q.v[mc::choose((int)q.v.size())]; int when = mc::choose(3), quiet = mc::choose(2);
  Pars p = quiet ? hpars() : noisy(); if (when == 0) (q.core ? p.core : p.cfg)[q.name] = v; Node n(p);
  mc::require((q.core ? n.core : n.cfg).count(q.name), "harness", q.name);
  history(n, [&] { if (when == 2 && q.name != "pose_initial_scale") apply(n, q, v); }, [&] { if (when == 1) apply(n, q, v); });
  mc::outcome(mc::mix(xhash(n.ref.latest().x), (uint64_t)(1e9 * n.ref.latest().P.trace())));
}
static void c21pairs() {
  auto P = params(); int i = mc::choose((int)P.size()), j = mc::choose((int)P.size()); if (j == i) throw mc::Prune(); int when = mc::choose(2);
  Node n(hpars()); history(n, [&] { if (when && P[j].name != "pose_initial_scale") apply(n, P[j], P[j].v[0]); }, [&] { apply(n, P[i], P[i].v[0]); if (!when) apply(n, P[j], P[j].v.back()); });
  mc::outcome(mc::mix(xhash(n.ref.latest().x), (uint64_t)(1e9 * n.ref.latest().P.trace())));
}
static void c21back() {           // set and restore: no residue
  auto P = params(); const Param& q = P[mc::choose((int)P.size())]; int when = mc::choose(2); Node n(hpars()); double old = (q.core ? n.core : n.cfg)[q.name];
  history(n, [&] { if (when) { apply(n, q, q.v[0]); apply(n, q, old); } }, [&] { if (!when) { apply(n, q, q.v[0]); apply(n, q, old); } });
  mc::outcome(xhash(n.ref.latest().x));
}
static void c21startup() {        // every start-up parameter set or left at its documented default
  int which = mc::choose(16), other = mc::choose(3); Pars p; p.defaults = true; p.p_ic = D3(0.1, -0.05, 0.2); p.cfg = hpars().cfg; p.pose_fixedcov = p.pos_fixedcov = true; p.pos_abs = true;
  if (other == 1) p.q_ic = axq(0.7, 0, 1, 1); if (other == 2) p.p_ip = D3(0.5, 1, -1); p.min_dt = 0.0;
  switch (which) {
    case 0: break; case 1: p.pose_abs = false; break; case 2: p.world_sensor = false; break; case 3: p.pose_fixedcov = false; break; case 4: p.min_dt = 0.05; break; case 5: p.min_dt = 0.03; break;
    case 6: p.pose_gate = true; p.pose_thr = 2; break; case 7: p.pose_thr = 2; break; case 8: p.pos_gate = p.sph_gate = true; p.pos_thr = p.sph_thr = 1.5; break; case 9: p.press_gate = true; p.press_thr = 1; break; case 10: p.press_thr = p.pos_thr = 0.1; break;
    case 11: p.pos_fixedcov = false; break; case 12: p.pose_gate = p.pos_gate = p.press_gate = p.sph_gate = true; break; case 13: p.p_ic = D3(3, -1, 0.5); break; case 14: p.q_ic = DQ(0.2, -0.4, 1.1, 0.6); break; case 15: p.sph_fixedcov = false; break;
  }
  Node n(p); double c[36] = {0}; for (int i = 0; i < 6; ++i) c[7 * i] = 0.02 * (i + 1);
  auto give = [&](int s, double t, int id) { if (s == 0) n.pose(t, D3(1 + 0.1 * id, 2 - 0.05 * id, 3), axq(0.5 + 0.05 * id, 0, 1, 1), c); else if (s == 1) { double cc[9] = {0.1, 0, 0, 0, 0.1, 0, 0, 0, 0.2}; (void)cc; deliver(n, {s, t, id}); } else deliver(n, {s, t, id}); };
  for (int s : S) give(s, T0 - 1 - 0.01 * s, 0);
  if (n.isSph() && !p.sph_fixedcov) { n.imu(T0, accOf(0), gyrOf(0)); mc::outcome(which); return; }
  n.init(T0, 1.2); for (int k = 1; k <= 8; ++k) feedImu(n, k); int k = 8;
  for (int u = 0; u < 8; ++u) { give(S[u % S.size()], T(k), u); feedImu(n, ++k); feedImu(n, ++k); if (u > 5) feedImu(n, ++k); }
  mc::outcome(mc::mix(n.ref.updates, xhash(n.ref.latest().x)));
}
int main(int argc, char** argv) {
  vector<mc::Scenario> L; bool th = argc > 2 && [&] { for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "thorough") return true; return false; }();
  auto add = [&](const char* nm, std::function<void()> f, int sd = 2, int to = 30) { mc::Scenario s; s.name = nm; s.fn = f; s.sharddepth = sd; s.timeout_s = to; L.push_back(s); };
  std::string k = KIND;
  add("c06_step", c06step, 3); add("c06_spikes", [=] { c06spikes(th ? 6 : 5); }, 3); add("c06_slide", c06slide, 3);
  add("c07_single", [] { c07(false); }, 3); add("c07_pairs", [] { c07(true); }, 3); add("c07_derivative", c07derivative, 3);
  add("c08_consistent", c08consistent, 3); add("c08_single", c08single, 3); if (k == "spherical") add("c08_sphere", c08sphere);
  add("c09_fixed", c09fixed, 3); add("c09_levels", c09levels, 3); if (HASPOSE) add("c09_message", c09message, 3);
  add("c10_button", [] { c10(0); }, 3); if (k == "pose") { add("c10_scale", [] { c10(1); }, 3); add("c10_height", [] { c10(2); }, 3); }
  if (HASPOSE) { add("c10_set_height", [] { c10(3); }, 3); add("c10_refused", c10refused, 2); }
  if (HASPOSE) add("c11_throttle", [=] { c11throttle(th ? 5 : 4); }, 3); if (HASPOSE) add("c11_topics", c11topics, 3); if (k != "pose") { }
  add("c11_delay", c11delay, 2);
  if (k == "position" || k == "pose_pressure") add("c11_sequence", c11sequence, 3);
  if (k == "position" || k == "position_pose") add("c11_gps", c11gps, 3);
  add("c21_single", c21single, 2); add("c21_pairs", c21pairs, 2); add("c21_back", c21back, 2); add("c21_startup", c21startup, 2);
  return mc::mainLoop(argc, argv, L);
}
