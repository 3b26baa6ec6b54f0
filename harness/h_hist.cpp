// Histories: orders of arrival, loss and duplication, gating, life cycle, long runs, relative readings.
#include "drive.hpp"
using std::vector;
static const vector<int> S = sensors();
static void probe(Node& n, int k) { deliver(n, {S[0], T(k), 3}); mc::require(n.ref.pubUpd, "harness", "probe had no effect"); }

// ---- C01: all interleavings of a fixed IMU stream with a set of readings
static void c01(int nImu, const vector<vector<double>>& times, const vector<int>& sens, bool equal) {
  Pars p = hpars(); Node n(p); boot(n, 4);
  vector<M> ms; for (size_t i = 0; i < sens.size(); ++i) ms.push_back({S[sens[i] % S.size()], T(mc::pick(times[i])), (int)i + 1});
  for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j < i; ++j) if (ms[i].t == ms[j].t) throw mc::Prune();
  int k = 4; vector<char> done(ms.size(), 0); size_t left = ms.size();
  while (k < nImu || left) {
    vector<int> opt; if (k < nImu) opt.push_back(-1); for (size_t i = 0; i < ms.size(); ++i) if (!done[i]) opt.push_back((int)i);
    int c = mc::pick(opt); if (c < 0) feedImu(n, ++k); else { done[c] = 1; --left; deliver(n, ms[c]); }
  }
  k = drain(n, k); probe(n, k);
  if (equal) { auto r = reorder(inOrder(n.ref.log)); finalEquals(n, r, "order-dependent"); }
  mc::outcome(xhash(n.ref.latest().x));
}
// ---- C02: what may arrive next, in any order
static void c02(int depth, int prefix, bool start) {
  Pars p = hpars(); Node n(p); int k = 0;
  if (start) { k = prefix; boot(n, prefix); } else for (int s : S) deliver(n, {s, T0 - 1, 0});
  int id = 0; double last = T(1);
  for (int i = 0; i < depth; ++i) {
    int s = S[mc::choose((int)S.size() > 1 && i % 2 ? 2 : 1)];
    int c = mc::choose(start ? 10 : 11);
    double t = 0;
    switch (c) {
      case 0: feedImu(n, ++k); continue;
      case 1: t = T(k); break;                 // newest sample
      case 2: t = T(k - 0.4); break;           // just before it
      case 3: t = T(std::max(1, k - 2)); break;
      case 4: t = last; break;                 // repeated stamp
      case 5: t = T(k + 0.6); break;           // slightly ahead
      case 6: t = T(k + 2); break;
      case 7: t = T(k + 3.5); break;
      case 8: t = T(-0.5); break;              // before the history
      case 9: t = T(k + 60); break;            // far ahead
      case 10: n.init(T(k), 1.2); continue;
    }
    last = t; deliver(n, {s, t, ++id});
  }
  if (!n.ref.inited) { mc::outcome(0); return; }
  while (n.ref.st.size() < 5 || !n.ref.predicted) { feedImu(n, ++k); if (!n.ref.inited) return; }
  // every pending reading must take effect once its time is reached: at most one sample per pending reading later
  double tmax = 0; size_t q = n.ref.queue.size(); for (auto& m : n.ref.queue) tmax = std::max(tmax, m.t);
  bool far = tmax > T(k + 20);
  if (!far) { while (T(k) < tmax) feedImu(n, ++k); for (size_t i = 0; i < q; ++i) feedImu(n, ++k); mc::require(n.ref.queue.empty(), "measurement-starved", "pending readings remain"); }
  else for (int i = 0; i < 4; ++i) feedImu(n, ++k);
  feedImu(n, ++k); probe(n, k); mc::outcome(mc::mix(xhash(n.ref.latest().x), n.ref.applied));
}
static void c02far() {      // a reading far ahead really takes effect when its time comes, and does not block others
  Pars p = hpars(); Node n(p); boot(n, 5); int k = 5;
  double ahead = mc::pick(vector<double>{3, 7.5, 12, 20.3}); int second = mc::choose(4), at = mc::choose(3);
  deliver(n, {S[0], T(k + ahead), 1}); if (second) deliver(n, {S.back(), T(k + ahead + (second - 2) * 1.5), 2});
  for (int i = 0; i < 26; ++i) { feedImu(n, ++k); if (i == 2 + 3 * at) deliver(n, {S.back(), T(k - 0.5), 4}); }
  mc::require(n.ref.queue.empty(), "measurement-starved", "pending readings remain"); probe(n, k); mc::outcome(xhash(n.ref.latest().x));
}
// ---- C03: good and bad readings in every order of arrival
static Pars gated(double thr) { Pars p = hpars(); p.pose_gate = p.pos_gate = p.press_gate = p.sph_gate = true; p.pose_thr = p.pos_thr = p.press_thr = p.sph_thr = thr; return p; }
static D3 bad(int s, int which) { if (s == 3) return D3(which ? 0.9 : -0.8, 1.0, 0); if (s == 4) return D3(which ? 900 : -3, 0, 0); return which ? D3(40, -35, 60) : D3(-25, 30, -45); }
static void c03(int nImu, int nm, bool late) {
  Node n(gated(8)); boot(n, 5); int k = 5;
  vector<M> ms;
  for (int i = 0; i < nm; ++i) {
    int s = S[i % S.size()], b = mc::choose(3);
    M m{s, T(late ? 3 + i * 2 : 5 + i), i + 1}; if (b) m.kick = bad(s, b - 1); ms.push_back(m);
  }
  vector<char> done(nm, 0); int left = nm;
  while (k < nImu || left) {
    vector<int> opt; if (k < nImu) opt.push_back(-1); for (int i = 0; i < nm; ++i) if (!done[i]) opt.push_back(i);
    int c = mc::pick(opt); if (c < 0) feedImu(n, ++k); else { done[c] = 1; --left; deliver(n, ms[c]); }
  }
  k = drain(n, k); probe(n, k);
  // without the rejected readings, gating switched off: the same estimate
  vector<ref::Ev> ev; for (auto e : n.ref.log) { if (e.k == 'M' && n.ref.lastUpd.count(e.m.id) && !n.ref.lastUpd[e.m.id]) continue; e.m.gate = false; ev.push_back(e); }
  auto r = reorder(ev); finalEquals(n, r, "rejected-reading-left-a-trace");
  mc::outcome(mc::mix(xhash(n.ref.latest().x), n.ref.rejected));
}
static void c03edge() {     // thresholds right at the innovation distance
  int s = mc::pick(S), size = mc::choose(4), rel = mc::choose(4), prior = mc::choose(2), behind = mc::choose(2);
  double f[4] = {1 - 1e-6, 1 + 1e-6, 0.5, 2}; D3 kick = bad(s, 1) * std::pow(0.2, size);
  auto play = [&](Node& n) { boot(n, 6); if (prior) deliver(n, {S[0], T(2), 1}); deliver(n, {s, T(behind ? 4 : 6), 5, kick}); feedImu(n, 7); probe(n, 7); };
  double mah; { Node n(hpars()); play(n); mah = 0; for (auto& e : n.ref.log) if (e.k == 'M' && e.m.id == (int)S.size() + prior + 1) mah = n.ref.lastMah[e.m.id]; }
  if (!(mah > 1e-9)) mc::fail("harness", "no innovation");
  Node n(gated(mah * f[rel])); play(n);   // lock-step comparison decides
  mc::outcome(mc::mix(xhash(n.ref.latest().x), n.ref.rejected));
}
static void c03both() {     // only the sensor that is configured to gate does
  Pars p = hpars(); int g0 = mc::choose(2), g1 = mc::choose(2); double thr0 = mc::pick(vector<double>{0, 0.001, 20, 1e6}), thr1 = mc::pick(vector<double>{0, 0.001, 20, 1e6});
  p.pose_gate = g0; p.pos_gate = p.press_gate = g1; p.pose_thr = thr0; p.pos_thr = p.press_thr = thr1; p.sph_gate = g0; p.sph_thr = thr0;
  Node n(p); boot(n, 6); int o = mc::choose(2);
  for (int i = 0; i < 4; ++i) { int s = S[(i + o) % S.size()]; M m{s, T(2 + i), i + 1}; if (i < 2) m.kick = bad(s, i); deliver(n, m); }
  feedImu(n, 7); mc::outcome(mc::mix(xhash(n.ref.latest().x), n.ref.rejected));
}
// ---- C04: every life-cycle event sequence
static vector<float> extState(double t, bool fin = true) { vector<float> v = {1.1f, 2.1f, 3.1f, 0.1f, -0.2f, 0.05f, 0.96f, 0.1f, 0.2f, 0.15f, 0, 0, 0, 0, 0, 0}; v[0] += (float)(t - T0); if (!fin) v[4] = NAN; return v; }
struct Cyc { double now; int k = 0; int id = 0; };
static bool event(Node& n, Cyc& c, int e) {
  auto imu = [&](double dt) { c.now += dt; ++c.k; n.imu(c.now, accOf(c.k), gyrOf(c.k)); };
  auto ext = [&](double dt, int flag) { c.now += dt; ++c.k; n.external(c.now, accOf(c.k), gyrOf(c.k), extState(c.now), flag); };
  switch (e) {
    case 0: imu(DT); break;
    case 1: n.init(c.now + 0.001, 1.1 + 0.1 * (c.k % 3)); break;
    case 2: imu(0.3); break;                                  // start-up gap / data gap
    case 3: imu(-0.004); c.now += 0.004; break;               // slightly backwards
    case 4: imu(-2); c.now += 2; break;                       // reset
    case 5: deliver(n, {S[0], c.now - 0.004, ++c.id}); break;
    case 6: deliver(n, {S.back(), c.now + 0.006, ++c.id}); break;
    case 7: ext(DT, 1); break;
    case 8: ext(6, 1); break;
    case 9: ext(DT, 0); break;
    case 10: ext(-2, 1); c.now += 2; break;
    case 11: imu(0); break;                                   // repeated stamp
    case 12: imu(6); break;
    case 13: deliver(n, {S[0], c.now, ++c.id}); break;
  }
  return true;
}
static void c04(int depth, bool suffix) {
  Node n(hpars()); Cyc c; c.now = T0; int pre = mc::choose(7);
  if (pre) { boot(n, pre - 1); c.now = T(pre - 1); c.k = pre - 1; }
  else { for (int s : S) { deliver(n, {s, T0 - 1 - 0.01 * s, 0}); mc::require(n.w.out.empty(), "output-before-init", "something was published before initialization"); } n.imu(c.now, accOf(0), gyrOf(0)); mc::require(n.w.out.empty(), "output-before-init", "something was published before initialization"); }
  for (int i = 0; i < depth; ++i) { event(n, c, mc::choose(14)); if (!n.ref.inited) mc::require(n.w.count("/msf_core/pose") == 0 && n.w.count("/msf_core/state_out") == 0 && n.w.count("/msf_core/odometry") == 0 && n.w.count("/msf_core/ext_state") == 0 && n.w.count("/msf_core/correction") <= 1, "output-while-uninitialized", "published while not initialized"); }
  if (suffix) {            // re-initialize: from here on as a fresh node
    for (int s : S) deliver(n, {s, c.now + 100, 2});
    double t0 = c.now + 200; n.init(t0, 1.3);
    Node f(hpars()); for (int s : S) deliver(f, {s, c.now + 100, 2}); f.init(t0, 1.3);
    for (int k = 1; k <= 5; ++k) { n.imu(t0 + DT * k, accOf(k), gyrOf(k)); f.imu(t0 + DT * k, accOf(k), gyrOf(k)); }
    M m{S[0], t0 + 0.033, 4}; m.kick = D3(0, 0, 0); deliver(n, m); deliver(f, m);
    Real a, b; bool ha = n.readFull(a), hb = f.readFull(b);
    if (ha != hb || !ha) mc::fail("reinit-differs", mc::fmt("re-initialized node published %d, fresh node %d updates", ha, hb));
    std::string w; double d = n.devX(a.x, b.x, &w), e = n.devP(a.P, b.P, &w); if (d > 1e-9 || e > 1e-9) mc::fail("reinit-differs", w);
  }
  mc::outcome(n.hash());
}
// re-initialization at any time, earlier or later, with the default throttling, after ordinary or bogus time stamps
static void c04again() {
  Pars p = hpars(); p.min_dt = mc::pick(vector<double>{0.05, 0}); Node n(p); boot(n, 6); deliver(n, {S[0], T(5), 1});
  for (int i = 0; i < 2; ++i) switch (mc::choose(5)) {
    case 0: break;
    case 1: deliver(n, {S[0], T(6) + 5000 - 900 * i, 2}); break;          // a reading stamped far ahead
    case 2: deliver(n, {S[0], T0 - 700 - i, 2}); break;                   // far in the past
    case 3: n.imu(n.ref.inited ? n.ref.latest().t - 50 : T0 - 300, accOf(1), gyrOf(1)); break; // time reset
    case 4: if (n.ref.inited) n.imu(n.ref.latest().t + 20, accOf(1), gyrOf(1)); break;
  }
  double t0 = T0 + mc::pick(vector<double>{-500, -0.5, 0, 0.03, 300}); deliver(n, {S[0], t0 - mc::pick(vector<double>{0.2, -0.001}), 3}); n.init(t0, 1.1);
  for (int k = 1; k <= 20; ++k) { n.imu(t0 + DT * k, accOf(k), gyrOf(k)); if (k % 6 == 0) { deliver(n, {S[0], t0 + DT * k, k}); if (p.min_dt == 0 && S[0] != 1) mc::require(n.ref.pubUpd, "harness", "no update"); } }
  mc::outcome(n.hash());
}
// readings late by seconds, with hundreds of readings and IMU samples to process again
static void longDelay() {
  double step = mc::pick(vector<double>{0.01, 0.004}), len = 11, a = mc::pick(mc::thorough() ? vector<double>{0.3, 0.9, 1.7, 3.1, 5.5, 9.7} : vector<double>{0.9, 3.1, 5.5, 9.7}), b = mc::pick(mc::thorough() ? vector<double>{0.205, 0.8, 2.6, 6.3, 10.1} : vector<double>{0.205, 6.3}); int every = mc::pick(mc::thorough() ? vector<int>{3, 11, 100000} : vector<int>{3, 17});
  Pars p = hpars(); if (cfgHas<Cfg>("pose_fixed_q_wv")) p.cfg["pose_fixed_q_wv"] = 1;      // nothing for the watchdog to decide
  auto A = [](int k) { return D3(accOf(k) - D3(0.1, 0, 0.00166)); }; auto G = [](int k) { return D3(gyrOf(k) - D3(0, 0, 0.15)); }; Node n(p); for (int s : S) deliver(n, {s, T0 - 1 - 0.01 * s, 0}); n.init(T0, 1.2); n.tolx = n.tolP = 1e-6; int N = (int)(len / step), id = 0;
  for (int k = 1; k <= N; ++k) { double t = T0 + step * k; n.imu(t, A(k), G(k)); if (k > 5 && k % every == 0) { deliver(n, {S[id % S.size()], t - 0.3 * step, 1}); ++id; } }
  double t = T0 + step * N; deliver(n, {S[0], t - a, 1}); if (!n.ref.pubUpd && S[0] != 1) mc::fail("harness", "late reading has no effect in the reference");
  n.imu(t + step, A(1), G(1)); deliver(n, {S.back(), t - b, 1}); n.imu(t + 2 * step, A(2), G(2)); deliver(n, {S[0], t + 2 * step, 1}); mc::outcome(n.hash());
}
// ---- C16: long runs
#include <malloc.h>
static void c16late() {
  double step = mc::pick(vector<double>{0.05, 0.02}), len = mc::pick(vector<double>{58, 63, 75}), age = mc::pick(vector<double>{59.5, 45, 30.01, 10.02, 0.5}); int upd = mc::choose(4);
  double every = upd == 0 ? 1e9 : upd == 1 ? 0.5 : upd == 2 ? 7 : 61;
  Node n(hpars()); for (int s : S) deliver(n, {s, T0 - 1 - 0.01 * s, 0}); n.init(T0, 1.2); n.tolx = n.tolP = 1e-6;
  double next = T0 + 0.3; int id = 0; int N = (int)(len / step);
  for (int k = 1; k <= N; ++k) { double t = T0 + step * k; n.imu(t, accOf(k), gyrOf(k)); if (t > next && id < 8) { deliver(n, {S[id % S.size()], t - 0.3 * step, 1 + id % 5}); ++id; next += every; } }
  double t = T0 + step * N; if (t - age < T0 + 0.5) throw mc::Prune();
  deliver(n, {S[0], t - age, 3}); if (!n.ref.pubUpd) mc::fail("harness", "late reading has no effect in the reference");
  deliver(n, {S.back(), t - age / 2, 4}); n.imu(t + step, accOf(1), gyrOf(1)); deliver(n, {S[0], t + step, 2});
  mc::outcome(xhash(n.ref.latest().x));
}
static void c16memory() {   // memory after 70 s, 140 s, 280 s of data
  double step = 0.05; int upd = mc::choose(4); double every = upd == 0 ? 5 : upd == 1 ? 30 : upd == 2 ? 1 : 0.05;
  int late = mc::choose(3);
  Pars p = hpars(); Node n(p); n.lockstep = false; for (int s : S) deliver(n, {s, T0 - 1 - 0.01 * s, 0}); n.init(T0, 1.2);
  n.ref.log.clear(); double next = T0 + 0.3; size_t at[4]; int id = 0;
  double marks[4] = {70, 140, 210, 280}; int mi = 0;
  for (int k = 1; mi < 4; ++k) {
    double t = T0 + step * k; mc::g_trace.clear(); n.imu(t, D3(0, 0, 9.80834), D3(0, 0, 0));
    if (t > next) { deliver(n, {S[id % S.size()], late == 1 ? t - 0.6 : late == 2 ? t - 65 : t - 0.02, 1}); ++id; next += every; }
    if (t >= T0 + marks[mi]) { n.w.out.clear(); at[mi++] = mallinfo2().uordblks; }
  }
  double grow1 = (double)at[2] - at[1], grow2 = (double)at[3] - at[2];

  mc::note("heap in use %zu %zu %zu %zu", at[0], at[1], at[2], at[3]); mc::check();
  if (grow1 > 20e3 && grow2 > 20e3) mc::fail("memory-grows", mc::fmt("heap grew by %.0f and %.0f bytes in successive 70 s", grow1, grow2));
}
// ---- C20: relative readings
static void c20(int nImu, const vector<vector<double>>& times, const vector<int>& sens) {
  Pars p = hpars(); p.pose_abs = false; Node n(p); boot(n, 5); int k = 5;
  vector<M> ms; for (size_t i = 0; i < sens.size(); ++i) ms.push_back({S[sens[i] % S.size()], T(mc::pick(times[i])), (int)i + 1});
  for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j < i; ++j) if (ms[i].t == ms[j].t) throw mc::Prune();
  vector<char> done(ms.size(), 0); size_t left = ms.size();
  while (k < nImu || left) {
    vector<int> opt; if (k < nImu) opt.push_back(-1); for (size_t i = 0; i < ms.size(); ++i) if (!done[i]) opt.push_back((int)i);
    int c = mc::pick(opt); if (c < 0) feedImu(n, ++k); else { done[c] = 1; --left; deliver(n, ms[c]); }
  }
  k = drain(n, k); deliver(n, {S.back(), T(k), 3}); mc::outcome(xhash(n.ref.latest().x));
}
static void c20truth() {    // increments that match the estimate, far-away absolute readings: no effect
  Pars p = hpars(); p.pose_abs = false; Node n(p); boot(n, 5); const ref::Sys& s = n.ref.s;
  D3 off = mc::pick(vector<D3>{D3(0, 0, 0), D3(500, -300, 200), D3(-20, 4, 0.5)}); int gap = 1 + mc::choose(4), times = 2 + mc::choose(2), between = mc::choose(2);
  auto reading = [&](int k) { ref::V3 hp; ref::V4 hq; ref::poseModel(s, n.ref.latest().x, hp, hq); n.pose(T(k), D3(hp[0], hp[1], hp[2]) + off, DQ(hq[0], hq[1], hq[2], hq[3])); };
  int k = 5; reading(k);
  for (int i = 0; i < times; ++i) {
    for (int j = 0; j < gap; ++j) feedImu(n, ++k);
    ref::V x = n.ref.latest().x; reading(k);
    Real r; mc::require(n.readFull(r), "missing-update", "no update"); std::string w; double d = n.devX(r.x, x, &w);
    if (d > 1e-8) mc::fail("consistent-increment-moves-estimate", w);
    if (between) feedImu(n, ++k);
  }
  mc::outcome(xhash(n.ref.latest().x));
}
static void c20offset() {   // a constant offset of all readings changes nothing
  int o = mc::choose(3), ord = mc::choose(3); D3 off[3] = {D3(100, -50, 30), D3(-3, 0, 0), D3(0, 0, 1000)};
  Real r[2];
  for (int v = 0; v < 2; ++v) {
    Pars p = hpars(); p.pose_abs = false; Node n(p); boot(n, 8); D3 q = v ? off[o] : D3(0, 0, 0);
    vector<M> ms = {{0, T(2), 1, q}, {0, T(4.5), 2, q}, {0, T(7), 3, q}}; static const int perm[3][3] = {{0, 1, 2}, {0, 2, 1}, {1, 2, 0}};
    for (int i = 0; i < 3; ++i) deliver(n, ms[perm[ord][i]]);
    if (!n.readFull(r[v])) mc::fail("missing-update", "no update");
    if (v) { std::string w; double d = n.devX(r[1].x, r[0].x, &w), e = n.devP(r[1].P, r[0].P, &w); if (d > 1e-8 || e > 1e-8) mc::fail("offset-matters", w); }
  }
  mc::outcome(xhash(r[0].x));
}
int main(int argc, char** argv) {
  vector<mc::Scenario> L; bool th = argc > 2 && [&] { for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "thorough") return true; return false; }();
  auto add = [&](const char* nm, std::function<void()> f, int sd = 4, int to = 30) { mc::Scenario s; s.name = nm; s.fn = f; s.sharddepth = sd; s.timeout_s = to; L.push_back(s); };
  vector<double> all = {5, 6.5, 6.8, 7, 3.4, 9}, some = {6.5, 7, 8.3}, mid = {5.5, 7};
  add("c01_two", [=] { c01(th ? 11 : 10, {all, all}, {0, 1}, true); });
  add("c01_three", [=] { c01(th ? 11 : 8, {some, {5, 7.6}, {3.4, 6.2}}, {0, 1, 0}, true); });
  if (th) add("c01_four", [=] { c01(9, {{6.5, 8}, {5, 7.6}, {6.2}, {3.4, 7}}, {0, 1, 1, 0}, true); });
  else add("c01_four", [=] { c01(7, {{6.5}, {5}, {6.2}, {3.4}}, {0, 1, 1, 0}, true); });
  add("c01_close", [=] { c01(8, {{6.5, 7.03}, {6.54, 6.98, 7.05}, {5.4, 7}}, {0, 1, 0}, false); });
  add("c02_running", [=] { c02(th ? 5 : 4, 5, true); });
  add("c02_starting", [=] { c02(th ? 5 : 4, 2, true); });
  add("c02_uninitialized", [=] { c02(th ? 5 : 4, 0, false); });
  add("c02_ahead", c02far, 2);
  add("c03_orders", [=] { c03(th ? 9 : 7, 3, false); });
  add("c03_late", [=] { c03(th ? 9 : 8, 3, true); });
  if (th) add("c03_four", [=] { c03(8, 4, false); });
  add("c01_long", longDelay, 2); add("c02_long", longDelay, 2);
  add("c03_threshold", c03edge, 2);
  add("c03_switches", c03both, 3);
  add("c04_again", c04again);
  add("c04_cycle", [=] { c04(th ? 4 : 3, false); }, 3);
  add("c04_reinit", [=] { c04(th ? 3 : 2, true); }, 3);
  add("c16_late", c16late, 3, 120);
  add("c16_memory", c16memory, 2, 120);
  if (std::string(KIND) != "position" && std::string(KIND) != "spherical") {
    add("c20_three", [=] { c20(th ? 10 : 8, {{2, 5.5, 6}, {4.3, 7, 8}, {3.4, 6.6}}, {0, 0, 0}); });
    if (S.size() > 1) add("c20_mixed", [=] { c20(th ? 9 : 7, {{2, 5.5}, {4.3, 7}, {3, 6.6}, {6}}, {0, 0, 1, 0}); });
    if (th) add("c20_four", [=] { c20(8, {{2, 5.5}, {4.3, 7}, {3.4, 6.6}, {5, 8}}, {0, 0, 0, 0}); });
    add("c20_consistent", c20truth, 2);
    add("c20_offset", c20offset, 2);
  }
  return mc::mainLoop(argc, argv, L);
}
