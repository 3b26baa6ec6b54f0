// What leaves the node: corrections for an external propagation (C12), consistency and layout of all published
// messages (C13), and the fuzzy-tracking watchdog (C14).
#include "drive.hpp"
#include <tf/transform_broadcaster.h>
using std::vector; using ref::V; typedef ref::M Mat; using ref::V3; using ref::V4;
using namespace sensor_fusion_comm;
static const vector<int> S = sensors();
static double now(Node& n) { return n.ref.latest().t; }
static void reading(Node& n, double t, int id, const D3& kick = D3::Zero()) { deliver(n, {S[id % S.size()], t, id, kick}); }
static bool fin(const ExtEkf& m) { for (float f : m.state) if (!std::isfinite(f)) return false; return true; }
typedef boost::shared_ptr<ExtEkf const> CorrP;
static CorrP corr(Node& n) { return n.w.last<ExtEkf>("/msf_core/correction"); }

// ---- C12
// correction (+) last external state = estimate
static void checkCorrection(Node& n, const V& x, double t) {
  CorrP c = corr(n); mc::require((bool)c, "missing-correction", "no correction after an update");
  mc::require(n.w.count("/msf_core/correction") == 1, "correction-count", "more than one correction");
  mc::require(c->state.size() == 16, "correction-layout", "correction has not 16 entries"); mc::require(c->header.stamp.toSec() == stampOf(t), "correction-stamp", mc::fmt("correction stamped %.6f, estimate %.6f", c->header.stamp.toSec(), t));
  if (n.pr.playback) { for (int i = 0; i < 16; ++i) mc::require(c->state[i] == (i == 6 ? 1 : 0), "correction-in-playback", mc::fmt("entry %d is %g during playback", i, c->state[i])); mc::require(c->flag == (int)ExtEkf::initialization || c->flag == (int)ExtEkf::ignore_state, "correction-flag", mc::fmt("flag %d", (int)c->flag)); return; }
  mc::require(c->flag == (int)ExtEkf::state_correction, "correction-flag", mc::fmt("flag %d", (int)c->flag));
  const ref::Sys& s = n.ref.s; const vector<float>& h = n.hl;
  for (int i = 0; i < 16; ++i) if (i < 6 || i > 9) {
    double want = x[i], got = (double)h[i] + (double)c->state[i], mag = 1e-3 + std::fabs(want) + std::fabs((double)h[i]);
    mc::require(std::fabs(got - want) < 3e-7 * mag, "correction-does-not-add-up", mc::fmt("entry %d: external %.9g plus correction %.9g is %.9g, estimate %.9g", i, h[i], c->state[i], got, want)); mc::deviation(std::fabs(got - want) / mag * 1e-6);
  }
  V4 hq(h[6], h[7], h[8], h[9]), cq(c->state[6], c->state[7], c->state[8], c->state[9]), g = ref::qmul(hq, cq), w = s.g4(x, "q"); double hn = std::sqrt(hq.squaredNorm());
  mc::require(std::min((g - w).squaredNorm(), (g + w).squaredNorm()) < 1e-12, "correction-does-not-add-up", mc::fmt("attitude: external times correction is (%g %g %g %g), estimate (%g %g %g %g), |external| %g", g[0], g[1], g[2], g[3], w[0], w[1], w[2], w[3], hn));
}
static vector<float> extState(const V& x, double d, int kind) {
  vector<float> r(16); for (int i = 0; i < 16; ++i) r[i] = (float)(x[i] + (i < 6 || i > 9 ? d * (1 + 0.37 * i) * (i % 2 ? -1 : 1) : 0));
  if (d != 0) { V4 q = ref::qmul(V4(x[6], x[7], x[8], x[9]), ref::small(V3(0.3 * d, -0.2 * d, 0.1))); for (int i = 0; i < 4; ++i) r[6 + i] = (float)q[i]; }
  if (kind == 1) for (int i = 6; i < 10; ++i) r[i] *= 1.75f; if (kind == 2) for (int i = 6; i < 10; ++i) r[i] = -r[i];
  return r;
}
static void after(Node& n, int upd) {     // after one event: every estimate published by an update has its correction
  if (n.ref.pubUpd) { Real r; n.readFull(r); checkCorrection(n, r.x, r.t); } else mc::require(!corr(n) || upd, "unexpected-correction", "a correction was published without an update");
}
static void c12histories(int depth) {
  int pb = mc::choose(2); Pars p = hpars(); p.playback = pb; Node n(p); boot(n, 5); double f = 0.1;
  for (int i = 0; i < depth; ++i) {
    int e = mc::choose(9), id = i + 1; double t = now(n); V x = n.ref.latest().x;
    switch (e) {
      case 0: n.imu(t + DT, accOf(i), gyrOf(i)); break;
      case 1: n.external(t + DT, accOf(i), gyrOf(i), extState(x, f * id, 0), 1); break;
      case 2: n.external(t + DT, accOf(i), gyrOf(i), extState(x, f * id, i % 3), (i * 2) % 4); break;
      case 3: { auto s = extState(x, f * id, 0); s[i % 10] = i % 2 ? NAN : INFINITY; n.lockstep = false; n.external(t + DT, accOf(i), gyrOf(i), s, 1); n.lockstep = true; n.hl = s;
        n.ref.external(stampOf(t + DT), R3(accOf(i)), R3(gyrOf(i)), V3(0, 0, 0), V3(0, 0, 0), V4(1, 0, 0, 0), false); n.compare(); if (n.ref.pubUpd) { n.hl = extState(x, 0, 0); n.external(now(n) + DT, accOf(i), gyrOf(i), n.hl, 0); break; }
        after(n, 0); n.external(now(n) + DT, accOf(i + 1), gyrOf(i), extState(x, f, 0), 0); break; }
      case 4: n.external(t + DT, accOf(i), gyrOf(i), vector<float>(mc::choose(2) ? 15 : 0, 0.3f), 1); break;
      case 5: reading(n, t, id); break;
      case 6: reading(n, t - 0.014, id); break;
      case 7: reading(n, t + 0.004, id); break;
      case 8: n.external(t - (mc::choose(2) ? 0.005 : 0), accOf(i), gyrOf(i), extState(x, f * id, 0), 1); break;
    }
    after(n, 0);
  }
  while (!n.ref.queue.empty()) { n.imu(now(n) + DT, accOf(0), gyrOf(0)); after(n, 0); }
  n.imu(now(n) + DT, accOf(0), gyrOf(0)); reading(n, now(n), 9); after(n, 0); n.imu(now(n) + DT, accOf(0), gyrOf(0)); reading(n, now(n), 10); after(n, 0);
  mc::outcome(n.hash());
}
static void c12values() {         // external states of every kind
  static const vector<DQ> A = {DQ(1, 0, 0, 0), axq(2.2, -1, 0.3, 0.5), axq(3.1415, 0.2, 1, 0.1), axq(-1.2, 0, 0, 1), DQ(-0.5, 0.5, 0.5, 0.5)};
  int big = mc::choose(17), at = mc::choose(5), norm = mc::choose(3), flag = mc::choose(4); double mag = mc::pick(vector<double>{0.5, -40, 3000});
  Node n(hpars()); boot(n, 5); V x = n.ref.latest().x; vector<float> s = extState(x, 0, 0);
  if (big < 16 && (big < 6 || big > 9)) s[big] += (float)mag; DQ q = A[at]; double f = norm == 0 ? 1 : norm == 1 ? 0.25 : -1.5; s[6] = q.w() * f; s[7] = q.x() * f; s[8] = q.y() * f; s[9] = q.z() * f;
  if (big == 16) for (int i = 0; i < 16; ++i) if (i < 6 || i > 9) s[i] += (float)(mag * 0.1 * (i - 7.5));
  if (flag == 1 && mag > 1000) throw mc::Prune();
  n.external(now(n) + DT, accOf(0), gyrOf(0), s, flag); after(n, 0); reading(n, now(n), 1); after(n, 0); n.imu(now(n) + DT, accOf(1), gyrOf(1)); reading(n, now(n), 2); after(n, 0);
  mc::outcome(xhash(n.ref.latest().x));
}
static void c12adopt() {          // adopted only when flagged current and finite, also while starting up
  int pre = mc::choose(6), bad = mc::thorough() ? mc::choose(11) : mc::pick(vector<int>{0, 2, 5, 6, 9, 10}), flag = mc::choose(4), pb = mc::choose(2), rep = mc::choose(3), again = rep ? mc::thorough() ? mc::choose(4) : mc::choose(2) : 0; double dt = mc::pick(vector<double>{0.01, 0.09, 1.5}); bool inf = bad < 10 ? mc::choose(2) : false;
  Pars p = hpars(); p.playback = pb; Node n(p); boot(n, pre);
  for (int r = 0; r <= rep; ++r) {
    V x = n.ref.latest().x; vector<float> s = extState(x, 0.2 + r, r); int fl = flag; if (bad < 10 && r == 0) s[bad] = inf ? -INFINITY : NAN; if (r) fl = again; double t = now(n) + dt;
    n.external(t, accOf(r), gyrOf(r), s, fl);
    if (fl == 1 && !pb && !(r == 0 && bad < 10) && n.ref.pubProp) { auto e = n.w.last<ExtState>("/msf_core/ext_state"); mc::require(std::fabs(e->pose.position.x - s[0]) < 1e-12 && std::fabs(e->velocity.z - s[5]) < 1e-12, "external-state-not-adopted", "flagged current but position or velocity differ"); }
    if (mc::choose(2)) n.imu(now(n) + DT, accOf(5), gyrOf(5));
  }
  for (int k = 0; k < 5; ++k) n.imu(now(n) + DT, accOf(k), gyrOf(k));
  n.hl = extState(n.ref.latest().x, 0.3, 0); n.external(now(n) + DT, accOf(0), gyrOf(0), n.hl, 0); reading(n, now(n), 3); after(n, 0); mc::outcome(n.hash());
}
static void c12init() {           // the initial state handed to the external propagation
  int ready = mc::choose(2), re = mc::choose(4), pb = mc::choose(2), sub = mc::choose(2); double sc = mc::pick(vector<double>{1, 0.3, 4}); Pars p = hpars(); p.playback = pb; Node n(p); if (!sub) n.w.nsub["/msf_core/correction"] = 0;
  if (S[0] >= 3 && !ready) throw mc::Prune();
  if (ready) for (int s : S) deliver(n, {s, T0 - 1 - 0.01 * s, 0});
  auto chk = [&](double t) { CorrP c = corr(n); if (!sub && !c) return; mc::require((bool)c, "missing-initial-state", "initialization did not publish the initial state"); mc::require(c->flag == (int)ExtEkf::initialization, "initial-flag", mc::fmt("flag %d", (int)c->flag)); mc::require(c->state.size() == 16 && c->header.stamp.toSec() == stampOf(t), "initial-stamp", "stamp or size");
    V x = n.ref.latest().x; for (int i = 0; i < 16; ++i) mc::require(std::fabs(c->state[i] - (float)x[i]) < 1e-6 * (1 + std::fabs(x[i])), "initial-state", mc::fmt("entry %d is %.9g, expected %.9g", i, c->state[i], x[i])); };
  n.init(T0, sc); chk(T0); int k = 0; if (re) { for (k = 1; k <= 3 * re; ++k) feedImu(n, k); if (re > 1) { n.external(now(n) + DT, accOf(1), gyrOf(1), extState(n.ref.latest().x, 0.5, 0), re == 3); reading(n, now(n), 4); } if (S[0] < 3 && mc::choose(2)) deliver(n, {S[0], T0 + 2, 7}); n.init(T0 + 3, sc * 1.5); chk(T0 + 3); }
  mc::outcome(xhash(n.ref.latest().x));
}
static void c12nonfinite(int depth) {     // whatever happens, no correction that is not finite
  Node n(hpars()); boot(n, 5); n.lockstep = false; double t = T(5), nan = NAN, inf = INFINITY; auto rd = [&](double tt, double v) { int s = S[0]; if (s == 0) n.pose(tt, D3(1, 2, v), axq(0.5, 0, 1, 1)); else if (s == 1) n.position(tt, D3(1, v, 3)); else n.angle(tt, 0.9, v); };
  vector<float> hl(16, 0); hl[6] = 1;
  for (int i = 0; i < depth; ++i) {
    int e = mc::choose(11); t += DT;
    switch (e) {
      case 9: n.imu(t, D3(1e308, 0, -1e308), gyrOf(i)); break; case 10: t += 1e4; n.imu(t, D3(1e305, 0, -1e307), D3(0, 1e-3, 0)); break;
      case 0: n.imu(t, accOf(i), gyrOf(i)); break; case 1: n.imu(t, D3(nan, 0, 9.8), gyrOf(i)); break; case 2: n.imu(t, accOf(i), D3(0, nan, 0)); break; case 3: n.imu(t, accOf(i), D3(0, -inf, 0)); break; case 4: n.imu(t, D3(0, inf, 0), gyrOf(i)); break;
      case 5: t -= DT; rd(t, 2.5 + 0.1 * i); break; case 6: t -= DT; rd(t, i % 2 ? nan : inf); break; case 7: t -= DT; rd(t - 0.013, 2.6); break; case 8: hl[0] = 0.1f * i; n.external(t, accOf(i), gyrOf(i), hl, i % 2 ? 1 : 0); break;
    }
    CorrP c = corr(n); mc::check(); if (c && !fin(*c)) mc::fail("non-finite-correction", mc::fmt("correction entry not finite (flag %d)", (int)c->flag));
    auto s = n.w.last<DoubleArrayStamped>("/msf_core/state_out"); if (s) { bool f = true; for (int k = 0; k < 16; ++k) f = f && std::isfinite(s->data[k]); mc::require(f == (bool)c, f ? "missing-correction" : "non-finite-correction", f ? "finite estimate, but no correction" : "estimate not finite, but a correction was sent"); mc::outcome(mc::mix(f, i)); }
  }
  mc::outcome(mc::mix(n.w.out.size(), (uint64_t)t));
}
// ---- C13
static void eq(double a, double b, const char* key, const char* what, double tol = 0) { mc::check(); if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) mc::fail(key, mc::fmt("%s: %.15g vs %.15g", what, a, b)); }
template<class P> static void eqPose(const P& a, const geometry_msgs::Pose& b, const char* what) {
  eq(a.position.x, b.position.x, "outputs-disagree", what); eq(a.position.y, b.position.y, "outputs-disagree", what); eq(a.position.z, b.position.z, "outputs-disagree", what);
  eq(a.orientation.w, b.orientation.w, "outputs-disagree", what); eq(a.orientation.x, b.orientation.x, "outputs-disagree", what); eq(a.orientation.y, b.orientation.y, "outputs-disagree", what); eq(a.orientation.z, b.orientation.z, "outputs-disagree", what);
}
static void checkOutputs(Node& n) {
  const ref::Sys& s = n.ref.s; auto ps = n.w.last<geometry_msgs::PoseWithCovarianceStamped>("/msf_core/pose"); auto od = n.w.last<nav_msgs::Odometry>("/msf_core/odometry"); auto ex = n.w.last<ExtState>("/msf_core/ext_state");
  mc::require((bool)ps == n.ref.pubProp && (bool)od == n.ref.pubProp && (bool)ex == n.ref.pubProp, "missing-output", "pose, odometry and external state are not all published after a propagation");
  if (ps) {
    mc::require(ps->header.stamp.toSec() == stampOf(n.ref.propT) && od->header.stamp == ps->header.stamp && ex->header.stamp == ps->header.stamp, "stamps-disagree", "stamps of pose, odometry and external state");
    mc::require(ps->header.frame_id == n.pr.output_frame && od->header.frame_id == n.pr.output_frame && ex->header.frame_id == n.pr.output_frame && od->child_frame_id == n.pr.child_frame, "frames", "frame names: " + ps->header.frame_id + " " + od->header.frame_id + " " + od->child_frame_id + " " + ex->header.frame_id);
    eqPose(od->pose.pose, ps->pose.pose, "odometry pose"); eqPose(ex->pose, ps->pose.pose, "external state pose"); for (int i = 0; i < 36; ++i) eq(od->pose.covariance[i], ps->pose.covariance[i], "outputs-disagree", "pose covariance");
    for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) eq(ps->pose.covariance[6 * i + j], ps->pose.covariance[6 * j + i], "asymmetric-covariance", "pose covariance", 1e-10);
    auto& o = ps->pose.pose.orientation; ref::M3 C = ref::rot(V4(o.w, o.x, o.y, o.z)); V3 v(ex->velocity.x, ex->velocity.y, ex->velocity.z), vi = C.transpose() * v; auto& tw = od->twist;
    eq(tw.twist.linear.x, vi[0], "twist", "linear x", 1e-12); eq(tw.twist.linear.y, vi[1], "twist", "linear y", 1e-12); eq(tw.twist.linear.z, vi[2], "twist", "linear z", 1e-12);
    const ref::Node& k = n.ref.st.find(n.ref.propT) != n.ref.st.end() ? n.ref.st.find(n.ref.propT)->second : n.ref.latest(); V3 om = k.w - s.g3(n.ref.propX, "b_w");
    eq(tw.twist.angular.x, om[0], "twist", "angular x", 1e-8); eq(tw.twist.angular.y, om[1], "twist", "angular y", 1e-8); eq(tw.twist.angular.z, om[2], "twist", "angular z", 1e-8);
    Mat cov(6, 6), J(3, 6); int idx[6] = {3, 4, 5, 6, 7, 8}; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) cov(i, j) = n.ref.propP(idx[i], idx[j]); J << C.transpose(), ref::skew(vi); Mat cl = J * cov * J.transpose();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double sc = std::sqrt(std::fabs(cl(i, i) * cl(j, j))) + 1e-12; mc::check(); if (std::fabs(tw.covariance[6 * i + j] - cl(i, j)) > 1e-6 * sc) mc::fail("twist-covariance", mc::fmt("linear (%d,%d) %.9g, expected %.9g", i, j, tw.covariance[6 * i + j], cl(i, j)));
      double w = n.ref.propP(9 + i, 9 + j) + (i == j ? n.ref.n.gyr * n.ref.n.gyr : 0); mc::check(); if (std::fabs(tw.covariance[6 * (3 + i) + 3 + j] - w) > 1e-6 * (std::fabs(w) + 1e-10)) mc::fail("twist-covariance", mc::fmt("angular (%d,%d) %.9g, expected %.9g", i, j, tw.covariance[6 * (3 + i) + 3 + j], w)); }
  }
  if (!n.ref.pubUpd) { for (auto t : {"/msf_core/state_out", "/msf_core/pose_after_update", "/msf_core/cov_core", "/tf"}) mc::require(n.w.count(t) == 0, "unexpected-output", std::string("output on ") + t + " without an update"); return; }
  Real r; mc::require(n.readFull(r), "missing-output", "no state after an update");
  auto st = n.w.last<DoubleArrayStamped>("/msf_core/state_out"); auto pu = n.w.last<geometry_msgs::PoseWithCovarianceStamped>("/msf_core/pose_after_update"); auto tr = n.w.last<tf::StampedTransform>("/tf"); auto cc = n.w.last<DoubleMatrixStamped>("/msf_core/cov_core"), ca = n.w.last<DoubleMatrixStamped>("/msf_core/cov_aux"), cx = n.w.last<DoubleMatrixStamped>("/msf_core/cov_core_aux"); CorrP co = corr(n);
  mc::require(pu && tr && co, "missing-output", "pose_after_update, transform or correction missing after an update");
  mc::require((int)st->data.size() == s.ns, "state-layout", mc::fmt("%zu states", st->data.size()));
  mc::require(st->header.stamp.toSec() == stampOf(n.ref.latest().t), "stamps-disagree", mc::fmt("state stamped %.6f, newest estimate %.6f", st->header.stamp.toSec(), n.ref.latest().t));
  mc::require(pu->header.stamp == st->header.stamp && cc->header.stamp == st->header.stamp && ca->header.stamp == st->header.stamp && cx->header.stamp == st->header.stamp && co->header.stamp == st->header.stamp, "stamps-disagree", "stamps of the messages of one update");
  mc::require(pu->header.frame_id == n.pr.output_frame && tr->frame_id_ == n.pr.output_frame && tr->child_frame_id_ == n.pr.tf_frame, "frames", "frame names: " + pu->header.frame_id + " " + tr->frame_id_ + " " + tr->child_frame_id_);
  geometry_msgs::Pose p; p.position.x = st->data[0]; p.position.y = st->data[1]; p.position.z = st->data[2]; p.orientation.w = st->data[6]; p.orientation.x = st->data[7]; p.orientation.y = st->data[8]; p.orientation.z = st->data[9]; eqPose(pu->pose.pose, p, "pose after update");
  eq(tr->o.x(), p.position.x, "outputs-disagree", "transform x"); eq(tr->o.y(), p.position.y, "outputs-disagree", "transform y"); eq(tr->o.z(), p.position.z, "outputs-disagree", "transform z"); eq(tr->r.w(), p.orientation.w, "outputs-disagree", "transform qw"); eq(tr->r.x(), p.orientation.x, "outputs-disagree", "transform qx"); eq(tr->r.y(), p.orientation.y, "outputs-disagree", "transform qy"); eq(tr->r.z(), p.orientation.z, "outputs-disagree", "transform qz");
  int idx[6] = {0, 1, 2, 6, 7, 8}; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { mc::check(); if (std::fabs(pu->pose.covariance[6 * i + j] - r.P(idx[i], idx[j])) > 1e-10 * std::sqrt(std::fabs(r.P(idx[i], idx[i]) * r.P(idx[j], idx[j]))) + 1e-18) mc::fail("outputs-disagree", mc::fmt("covariance of the pose after update (%d,%d)", i, j)); }
  for (int i = 0; i < s.ne; ++i) for (int j = 0; j < i; ++j) { double sc = std::sqrt(std::fabs(r.P(i, i) * r.P(j, j))); mc::check(); if (std::fabs(r.P(i, j) - r.P(j, i)) > 1e-10 * sc + 1e-18) mc::fail("asymmetric-covariance", mc::fmt("(%d,%d) %.12g vs %.12g", i, j, r.P(i, j), r.P(j, i))); }
}
static void frames(Pars& p) { int f = mc::choose(4); if (f & 1) { p.output_frame = "map"; p.tf_frame = "base"; } if (f & 2) p.child_frame = "body"; }
static void event13(Node& n, int e, int i) {
  double t = now(n);
  switch (e) {
    case 0: n.imu(t + DT, accOf(i), gyrOf(i)); break; case 1: reading(n, t, i + 1, D3(0.2, -0.1, 0.1)); break; case 2: reading(n, t - 0.014, i + 1, D3(0.1, 0.2, -0.3)); break; case 3: reading(n, t + 0.004, i + 1); break;
    case 4: n.external(t + DT, accOf(i), gyrOf(i), extState(n.ref.latest().x, 0.1 * i, 0), i % 2); break; case 5: reading(n, t - 0.04, i + 1, D3(-0.1, 0, 0.2)); break; case 6: n.imu(t + 0.03, accOf(i + 3), gyrOf(i + 3)); break;
  }
}
static void c13histories(int depth) {
  Pars p = hpars(); frames(p); p.core["core_noise_gyr"] = 0.1; Node n(p); for (int s : S) deliver(n, {s, T0 - 1 - 0.01 * s, 0}); n.init(T0, 1.2); int pre = mc::choose(3); for (int k = 1; k <= 3 + 3 * pre; ++k) { feedImu(n, k); checkOutputs(n); }
  for (int i = 0; i < depth; ++i) { event13(n, mc::choose(7), i); checkOutputs(n); }
  n.imu(now(n) + DT, accOf(1), gyrOf(1)); checkOutputs(n); reading(n, now(n), 8); checkOutputs(n); mc::outcome(n.hash());
}
static void c13attitudes() {      // signs and ordering of every component, for strong rotations, velocities and noise
  int a = mc::choose(6), b = mc::choose(6), pre = mc::choose(3); Pars p = hpars(); frames(p); p.core["core_noise_gyr"] = 0.3; p.core["core_noise_acc"] = 0.4; p.core["core_noise_gyrbias"] = 0.1; Node n(p); boot(n, 5);
  static const D3 w[6] = {D3(0, 0, 0), D3(3, 0, 0), D3(0, -4, 0), D3(0, 0, 5), D3(2, -3, 1), D3(-1, 2, 6)}, ac[6] = {D3(0, 0, 9.8), D3(9, 0, 3), D3(0, -12, 5), D3(4, 8, -15), D3(-7, 2, 20), D3(1, 1, 1)};
  for (int i = 0; i < 6 + 10 * pre; ++i) { n.imu(now(n) + 0.02, ac[b], w[a]); checkOutputs(n); } reading(n, now(n), 3, D3(0.5, -0.4, 0.3)); checkOutputs(n); n.imu(now(n) + DT, ac[a], w[b]); checkOutputs(n); reading(n, now(n) - 0.005, 4, D3(-0.2, 0.1, 0.4)); checkOutputs(n); mc::outcome(n.hash());
}
// flat content of one published message, without sequence numbers
static vector<double> flat(const fakeros::Rec& r) {
  vector<double> v; auto P = [&](const geometry_msgs::Pose& p) { v.insert(v.end(), {p.position.x, p.position.y, p.position.z, p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z}); }; auto str = [&](const std::string& s) { for (char c : s) v.push_back(c); };
  if (r.type == std::type_index(typeid(geometry_msgs::PoseWithCovarianceStamped))) { auto& m = *(const geometry_msgs::PoseWithCovarianceStamped*)r.msg.get(); v.push_back(m.header.stamp.toSec()); str(m.header.frame_id); P(m.pose.pose); v.insert(v.end(), m.pose.covariance.begin(), m.pose.covariance.end()); }
  else if (r.type == std::type_index(typeid(nav_msgs::Odometry))) { auto& m = *(const nav_msgs::Odometry*)r.msg.get(); v.push_back(m.header.stamp.toSec()); str(m.header.frame_id); str(m.child_frame_id); P(m.pose.pose); v.insert(v.end(), m.pose.covariance.begin(), m.pose.covariance.end()); auto& t = m.twist.twist; v.insert(v.end(), {t.linear.x, t.linear.y, t.linear.z, t.angular.x, t.angular.y, t.angular.z}); v.insert(v.end(), m.twist.covariance.begin(), m.twist.covariance.end()); }
  else if (r.type == std::type_index(typeid(ExtState))) { auto& m = *(const ExtState*)r.msg.get(); v.push_back(m.header.stamp.toSec()); str(m.header.frame_id); P(m.pose); v.insert(v.end(), {m.velocity.x, m.velocity.y, m.velocity.z}); }
  else if (r.type == std::type_index(typeid(ExtEkf))) { auto& m = *(const ExtEkf*)r.msg.get(); v.push_back(m.header.stamp.toSec()); v.insert(v.end(), m.state.begin(), m.state.end()); v.push_back(m.flag); }
  else if (r.type == std::type_index(typeid(DoubleArrayStamped))) { auto& m = *(const DoubleArrayStamped*)r.msg.get(); v.push_back(m.header.stamp.toSec()); v.insert(v.end(), m.data.begin(), m.data.end()); }
  else if (r.type == std::type_index(typeid(DoubleMatrixStamped))) { auto& m = *(const DoubleMatrixStamped*)r.msg.get(); v.push_back(m.header.stamp.toSec()); v.push_back(m.rows); v.push_back(m.cols); v.insert(v.end(), m.data.begin(), m.data.end()); }
  return v;
}
static const char* TOP[] = {"/msf_core/pose", "/msf_core/odometry", "/msf_core/ext_state", "/msf_core/correction", "/msf_core/pose_after_update", "/msf_core/cov_core", "/msf_core/cov_aux", "/msf_core/cov_core_aux", "/msf_core/state_out"};
static void c13subscribers() {    // who listens does not change what is sent
  int mask = mc::choose(512); Pars p = hpars(); vector<std::pair<std::string, vector<double>>> log[2]; uint64_t h = 0;
  for (int run = 0; run < 2; ++run) {
    Node n(p); if (run) { for (int i = 0; i < 9; ++i) n.w.nsub[TOP[i]] = mask >> i & 1; n.lockstep = false; }
    for (int s : S) deliver(n, {s, T0 - 1 - 0.01 * s, 0}); n.init(T0, 1.2);
    auto rec = [&] { for (auto& r : n.w.out) log[run].push_back({r.topic, flat(r)}); };
    for (int k = 1; k <= 9; ++k) { feedImu(n, k); rec(); if (k == 5 || k == 7) { reading(n, T(k), k); rec(); } if (k == 8) { reading(n, T(6.5), k); rec(); } if (k == 6) { n.external(T(6) + 0.001, accOf(1), gyrOf(1), vector<float>{0, 0, 1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 0); rec(); } }
    if (!run) h = n.hash();
  }
  for (int i = 0; i < 9; ++i) if (mask >> i & 1) {
    vector<vector<double>> a, b; for (auto& e : log[0]) if (e.first == TOP[i]) a.push_back(e.second); for (auto& e : log[1]) if (e.first == TOP[i]) b.push_back(e.second); mc::check();
    if (a.empty()) mc::fail("missing-output", std::string("nothing on ") + TOP[i]); if (a != b) mc::fail("subscriber-dependent", std::string(TOP[i]) + mc::fmt(": %zu messages, %zu with a single different set of listeners, or different content", a.size(), b.size()));
  }
  mc::outcome(mc::mix(h, mask));
}
// ---- C14
static Pars wpars() { Pars p = hpars(); for (auto s : {"pose_noise_q_wv"}) if (cfgHas<Cfg>(s)) p.cfg[s] = 2.0; return p; }
static void step14(Node& n, int id, const V3& turn, bool expectRecover = true) {     // IMU sample and one pose reading turned by a rotation vector
  n.imu(now(n) + DT, D3(0.05, -0.1, 9.8), D3(0.01, 0.02, -0.01)); const ref::Sys& s = n.ref.s; V3 hp; V4 hq; V x = n.ref.latest().x; (void)expectRecover;
  ref::poseModel(s, x, hp, hq); V4 z = ref::qmul(ref::small(turn), hq); n.pose(now(n), D3(hp[0] + 0.01 * (id % 3), hp[1], hp[2]), DQ(z[0], z[1], z[2], z[3])); if (n.ref.ambiguous) throw mc::Prune();
}
static const vector<V3>& turns() { static const vector<V3> v = {V3(0, 0, 0), V3(0, 0, 0.07), V3(0.25, 0, 0), V3(0, 0, -0.5), V3(-0.02, 0.16, 0.01)}; return v; }
static void c14jumps(int depth) {
  int start = 28 + mc::choose(6); Node n(wpars()); n.ref.watchdog = true; boot(n, 5);
  for (int i = 0; i < start; ++i) step14(n, i, V3(0.001 * (i % 3), 0, 0.001 * (i % 5)));
  for (int i = 0; i < depth; ++i) step14(n, i, turns()[mc::choose(5)]);
  mc::outcome(mc::mix(n.ref.triggered, xhash(n.ref.latest().x)));
}
static void c14ring() {           // slow drift is followed by the median, whatever the position in the ring
  double d = mc::pick(vector<double>{0, 0.003, -0.005, 0.009}); int ax = mc::choose(3), at = 30 + 5 * mc::choose(15), kind = 1 + mc::choose(4); Node n(wpars()); n.ref.watchdog = true; boot(n, 5); V3 s = V3::Zero(); s[ax] = d;
  for (int i = 0; i < at; ++i) step14(n, i, s); step14(n, 1, turns()[kind]); for (int i = 0; i < 4; ++i) step14(n, i, i == 2 ? turns()[kind] : s);
  mc::outcome(mc::mix(n.ref.triggered, xhash(n.ref.latest().x)));
}
static void c14init() {           // initialization forgets; a time reset too once re-initialized
  int before = mc::pick(vector<int>{1, 29, 30, 31, 45}), how = mc::choose(3), between = mc::pick(vector<int>{0, 1, 29, 30, 31}), k1 = mc::choose(5), k2 = mc::choose(5); Node n(wpars()); n.ref.watchdog = true; boot(n, 5);
  for (int i = 0; i < before; ++i) step14(n, i, V3(0, 0, 0.001)); if (how == 1) { n.imu(now(n) - 0.5, accOf(0), gyrOf(0)); mc::require(!n.ref.inited, "harness", "reset"); } if (how == 2) step14(n, 2, turns()[2]);
  double t = T(200); n.pose(t - 1, D3(1, 2, 3), axq(2.0, 0, 1, 0.3)); n.init(t, 1.2); for (int k = 1; k <= 5; ++k) n.imu(t + DT * k, accOf(k), gyrOf(k));
  for (int i = 0; i < between; ++i) step14(n, i, V3(0, 0.001, 0)); step14(n, 1, turns()[k1]); step14(n, 2, turns()[k2]);
  mc::outcome(mc::mix(n.ref.triggered, xhash(n.ref.latest().x)));
}
static void c14sensors() {        // readings of the other sensor count and may trigger as well
  if (S.size() < 2) throw mc::Prune(); Node n(wpars()); n.ref.watchdog = true; boot(n, 5); int pat = mc::choose(3), more = mc::choose(4);
  for (int i = 0; i < 27 + more; ++i) { if ((pat == 1 && i % 2) || (pat == 2 && i % 3)) { n.imu(now(n) + DT, accOf(i), gyrOf(i)); deliver(n, {S[1], now(n), i % 5}); if (n.ref.ambiguous) throw mc::Prune(); } else step14(n, i, V3(0.001, 0, 0)); }
  for (int i = 0; i < 4; ++i) { int c = mc::choose(4); if (c == 3) { n.imu(now(n) + DT, accOf(i), gyrOf(i)); deliver(n, {S[1], now(n), i, D3(3, -2, 4)}); if (n.ref.ambiguous) throw mc::Prune(); } else step14(n, i, turns()[c == 2 ? 3 : c]); }
  mc::outcome(mc::mix(n.ref.triggered, xhash(n.ref.latest().x)));
}
static void c14relative() {       // also with relative readings, and never without a drift-free state
  Pars p = wpars(); p.pose_abs = false; int start = 28 + mc::choose(5); Node n(p); n.ref.watchdog = true; boot(n, 5); DQ q = axq(0.5, 0, 1, 1); D3 pp(1, 2, 3);
  auto one = [&](double a) { n.imu(now(n) + DT, accOf(1), gyrOf(1)); q = (q * axq(a, 1, 1, 0)).normalized(); n.pose(now(n), pp, q); if (n.ref.ambiguous) throw mc::Prune(); };
  for (int i = 0; i < start; ++i) one(0.001); for (int i = 0; i < 3; ++i) one(mc::pick(vector<double>{0, 0.3, -1})); mc::outcome(mc::mix(n.ref.triggered, xhash(n.ref.latest().x)));
}
static void c14none() {           // filters without a drift-free state keep every update
  Node n(hpars()); boot(n, 5); int start = 29 + mc::choose(4); for (int i = 0; i < start; ++i) { n.imu(now(n) + DT, accOf(i), gyrOf(i)); reading(n, now(n), i % 5); }
  for (int i = 0; i < 4; ++i) { n.imu(now(n) + DT, accOf(i), gyrOf(i)); reading(n, now(n), i, mc::choose(2) ? D3(0.4, 0.3, -2) : D3(0, 0, 0)); } mc::outcome(xhash(n.ref.latest().x));
}
int main(int argc, char** argv) {
  vector<mc::Scenario> L; bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough"; bool q = S[0] == 0;
  auto add = [&](const char* nm, std::function<void()> f, int sd = 3, int to = 30) { mc::Scenario s; s.name = nm; s.fn = f; s.sharddepth = sd; s.timeout_s = to; L.push_back(s); };
  add("c12_histories", [=] { c12histories(th ? 5 : 4); }); add("c12_values", c12values); add("c12_adopt", c12adopt); add("c12_init", c12init); add("c12_nonfinite", [=] { c12nonfinite(th ? 5 : 4); });
  add("c13_histories", [=] { c13histories(th ? 5 : 4); }); add("c13_attitudes", c13attitudes); add("c13_subscribers", c13subscribers, 1);
  if (q) { add("c14_jumps", [=] { c14jumps(th ? 5 : 4); }); add("c14_ring", c14ring); add("c14_init", c14init); if (S.size() > 1) add("c14_sensors", c14sensors); add("c14_relative", c14relative, 2); } else add("c14_none", c14none);
  return mc::mainLoop(argc, argv, L);
}
