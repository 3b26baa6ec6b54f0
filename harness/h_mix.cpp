// One long ordinary history (IMU stream, readings of every sensor at their own rate with delays) and every deviation
// from it: each single disturbance at each place, and pairs of disturbances.
#include "drive.hpp"
using std::vector;
static const vector<int> S = sensors();
struct E { char k; int i = 0; M m{0, 0, 0}; double v = 0; int slot = 0; };     // I imu, M reading, X external, C setting, R re-initialization, P spike, Z slightly backwards
static vector<E> base(int n) {
  vector<E> ev; static const double delay[5] = {0.4, 2.3, 0, 6.7, 1};
  vector<vector<E>> at(n + 12); int id = 0;
  for (size_t s = 0; s < S.size(); ++s) { int c = 0; for (double t = 5 + 2 * s; t < n - 1; t += (s ? 5.4 : 4.3), ++c) { E e; e.k = 'M'; e.m = {S[s], T(t + 0.1 * (c % 3)), ++id}; double a = t + 0.1 * (c % 3) + delay[(c + s) % 5]; at[std::min((int)at.size() - 1, (int)std::floor(a))].push_back(e); } }
  for (int k = 1; k <= n; ++k) { E e; e.k = 'I'; e.i = k; ev.push_back(e); for (auto& m : at[k]) ev.push_back(m); }
  for (int k = n + 1; k < (int)at.size(); ++k) for (auto& m : at[k]) ev.push_back(m);
  for (size_t i = 0; i < ev.size(); ++i) ev[i].slot = (int)i;
  return ev;
}
static int curK(const vector<E>& ev, int p) { for (int i = p; i >= 0; --i) if (ev[i].k == 'I') return ev[i].i; return 0; }
enum { SWAP, BACK3, BACK12, BACKALL, DROP, DUP, GAPSMALL, GAPWIDE, OLD, ANCIENT, AHEAD, CLOSE, SAME, OUT, OUTLATE, SPIKE, ZBACK, REPEAT, EXT, EXTOLD, EXTIGN, REINIT, RESET, SET0, SET1, SET2, NK };
static const char* kname[NK] = {"swapped with the next", "3 events later", "12 events later", "last of all", "lost", "twice", "no IMU for 0.08 s", "no IMU for 0.3 s", "old reading", "reading before the history", "reading ahead", "reading 0.7 ms beside", "reading with the same stamp", "outlier", "late outlier", "acceleration spike", "IMU slightly backwards", "IMU twice", "external state", "stale external state", "ignored external state", "re-initialization", "time reset", "noise changed", "fixed states switched", "delay changed"};
static void disturb(vector<E>& ev, int kind, int p, int salt) {
  int n = ev.size(); if (p >= n) return; E e; int k = curK(ev, p);
  auto shift = [&](int d) { int q = std::min(n - 1, p + d); std::rotate(ev.begin() + p, ev.begin() + p + 1, ev.begin() + q + 1); };
  auto insert = [&](const E& x) { ev.insert(ev.begin() + p + 1, x); };
  auto reading = [&](double t, int which = 0) { E x; x.k = 'M'; x.m = {S[(which + salt) % S.size()], t, 6 + salt}; return x; };
  bool meas = ev[p].k == 'M';
  switch (kind) {
    case SWAP: if (p + 1 >= n || ev[p].k == ev[p + 1].k || !(meas || ev[p + 1].k == 'M')) throw mc::Prune(); shift(1); break;
    case BACK3: if (!meas) throw mc::Prune(); shift(3); break;
    case BACK12: if (!meas) throw mc::Prune(); shift(12); break;
    case BACKALL: if (!meas) throw mc::Prune(); shift(n); break;
    case DROP: ev.erase(ev.begin() + p); break;
    case DUP: if (!meas) throw mc::Prune(); insert(ev[p]); break;
    case GAPSMALL: case GAPWIDE: { if (ev[p].k != 'I') throw mc::Prune(); int w = kind == GAPSMALL ? 8 : 30; vector<E> r; for (auto& x : ev) if (!(x.k == 'I' && x.i >= k && x.i < k + w)) r.push_back(x); ev = r; break; }
    case OLD: insert(reading(T(k - 17.5))); break;
    case ANCIENT: insert(reading(T(-2 - salt))); break;
    case AHEAD: insert(reading(T(k + 6.4 + salt))); break;
    case CLOSE: if (!meas) throw mc::Prune(); insert(reading(ev[p].m.t + (salt ? 0.0007 : -0.0007), 1)); break;
    case SAME: if (!meas || S.size() < 2) throw mc::Prune(); { E x = ev[p]; x.m.s = x.m.s == S[0] ? S[1] : S[0]; x.m.id = 9; insert(x); } break;
    case OUT: case OUTLATE: { if (!meas) throw mc::Prune(); ev[p].m.kick = ev[p].m.s == 3 ? D3(0.7, 0.9, 0) : ev[p].m.s == 4 ? D3(60, 0, 0) : D3(9, -7, 8); if (kind == OUTLATE) shift(7); break; }
    case SPIKE: e.k = 'P'; if (ev[p].k != 'I') throw mc::Prune(); e.i = k; ev[p] = e; break;
    case ZBACK: e.k = 'Z'; e.v = T(k - 0.4); insert(e); break;
    case REPEAT: if (ev[p].k != 'I') throw mc::Prune(); insert(ev[p]); break;
    case EXT: if (ev[p].k != 'I') throw mc::Prune(); e.k = 'X'; e.i = k; e.v = 1; ev[p] = e; break;
    case EXTOLD: e.k = 'X'; e.i = std::max(1, k - 4); e.v = 1; insert(e); break;
    case EXTIGN: if (ev[p].k != 'I') throw mc::Prune(); e.k = 'X'; e.i = k; e.v = salt ? 2 : 0; ev[p] = e; break;
    case REINIT: e.k = 'R'; e.v = T(k + 0.5); insert(e); break;
    case RESET: e.k = 'Z'; e.v = T(k) - 3; insert(e); { E r; r.k = 'R'; r.v = T(k + 1.5); int c = 0; size_t q = p + 2; while (q < ev.size() && c < 3) { if (ev[q].k == 'I') ++c; ++q; } ev.insert(ev.begin() + std::min(q, ev.size()), r); } break;
    case SET0: case SET1: case SET2: e.k = 'C'; e.i = kind - SET0; insert(e); break;
  }
}
static void play(Node& n, const vector<E>& ev) {
  for (auto& e : ev) switch (e.k) {
    case 'I': feedImu(n, e.i); break;
    case 'P': n.imu(T(e.i), D3(30, -45, 20), gyrOf(e.i)); break;
    case 'Z': n.imu(e.v, accOf(3), gyrOf(3)); break;
    case 'M': deliver(n, e.m); break;
    case 'R': n.init(e.v, 1.1); break;
    case 'X': { vector<float> v = {1.1f, 2.1f, 3.1f, 0.1f, -0.2f, 0.05f, 0.96f, 0.1f, 0.2f, 0.15f, 0, 0, 0, 0, 0, 0}; v[0] += 0.01f * e.i; n.external(T(e.i), accOf(e.i), gyrOf(e.i), v, (int)e.v); break; }
    case 'C': if (e.i == 0) { n.setCore("core_noise_acc", 0.05); for (const char* m : {"pose_noise_meas_p", "position_noise_meas", "angle_noise_meas", "press_noise_meas_p"}) if (cfgHas<Cfg>(m)) n.setCfg(m, 0.04); for (const char* m : {"pose_noise_q_wv", "position_noise_p_ip", "noise_p_ip"}) if (cfgHas<Cfg>(m)) n.setCfg(m, 0.02); }
              else if (e.i == 1) { for (const char* m : {"pose_fixed_scale", "pose_fixed_p_wv", "position_fixed_p_ip", "fixed_p_ip"}) if (cfgHas<Cfg>(m)) n.setCfg(m, 1); }
              else for (const char* m : {"pose_delay", "position_delay", "angle_delay", "distance_delay"}) if (cfgHas<Cfg>(m)) n.setCfg(m, 0.023);
              break;
  }
}
static Pars setting(int c) {
  Pars p = hpars();
  if (c == 1) { p.pose_gate = p.pos_gate = p.press_gate = p.sph_gate = true; p.pose_thr = p.pos_thr = p.press_thr = p.sph_thr = 9; }
  if (c == 2) p.pose_abs = false;
  if (c == 3) { p.core["core_fixed_bias"] = 1; for (const char* f : {"pose_fixed_p_ic", "pose_fixed_q_wv", "position_fixed_p_ip", "fixed_p_ip"}) if (cfgHas<Cfg>(f)) p.cfg[f] = 1; }
  if (c == 4) { p.world_sensor = false; for (const char* f : {"pose_noise_scale", "pose_noise_p_wv", "pose_noise_q_wv", "pose_noise_p_ic", "pose_noise_q_ic", "position_noise_p_ip", "press_noise_bias_p", "noise_p_ip"}) if (cfgHas<Cfg>(f)) p.cfg[f] = 0.03; }
  return p;
}
static bool relativeOk() { return S.size() == 1 && S[0] == 0; }
static void run(const vector<vector<int>>& kinds, int stride, int n, const vector<int>& settings, bool sorted) {
  int c = mc::pick(settings); if (c == 2 && !relativeOk()) throw mc::Prune();
  vector<E> b = base(n); int first = 0; while (b[first].k != 'M') ++first;
  vector<E> ev = b; int last = 1 << 20;
  vector<std::pair<int, int>> d;
  for (size_t i = 0; i < kinds.size(); ++i) { int kd = mc::pick(kinds[i]); int np = ((int)b.size() - first + stride - 1) / stride; int p = first + stride * mc::choose(np) + (int)i * 1; d.push_back({p, kd}); }
  // from the last place to the first, so that the places mean the same as in the undisturbed history
  std::stable_sort(d.begin(), d.end(), [](auto& x, auto& y) { return x.first > y.first; }); (void)last;
  for (size_t i = 0; i < d.size(); ++i) { mc::note("%s at event %d", kname[d[i].second], d[i].first); disturb(ev, d[i].second, std::min(d[i].first, (int)b.size() - 1), (int)i); }
  Node node(setting(c)); for (int s : S) deliver(node, {s, T0 - 1 - 0.01 * s, 0}); node.init(T0, 1.2); node.tolx = node.tolP = 1e-7;
  play(node, ev);
  double t = std::max(T(n), node.ref.inited ? node.ref.latest().t : 0);
  if (node.ref.inited) { int g = 0; do { t += DT; node.imu(t, accOf(g), gyrOf(g)); } while (node.ref.inited && (!node.ref.queue.empty() || !node.ref.predicted || node.ref.st.size() < 5) && ++g < 40); }
  if (node.ref.inited) {
    mc::require(node.ref.queue.empty(), "measurement-starved", "a reading is still pending although its time was passed long ago");
    deliver(node, {S[0], t - node.C("pose_delay"), 3});
    if (sorted && node.ref.pubUpd) { auto r = reorder(inOrder(node.ref.log)); finalEquals(node, r, "order-dependent", 1e-7); }
  }
  mc::outcome(node.hash());
}
int main(int argc, char** argv) {
  vector<mc::Scenario> L; bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough";
  auto add = [&](const char* nm, std::function<void()> f) { mc::Scenario s; s.name = nm; s.fn = f; s.sharddepth = 3; s.timeout_s = 60; L.push_back(s); };
  int n = th ? 110 : 55; typedef vector<int> V;
  V order = {SWAP, BACK3, BACK12, BACKALL}, loss = {DROP, DUP, GAPSMALL, GAPWIDE, OLD, ANCIENT, AHEAD, CLOSE, SAME, REPEAT}, gate = {OUT, OUTLATE}, life = {REINIT, RESET, ZBACK, GAPWIDE}, ext = {EXT, EXTOLD, EXTIGN}, set = {SET0, SET1, SET2}, imu = {SPIKE, ZBACK, REPEAT, GAPSMALL};
  int st = th ? 2 : 5;
  add("order", [=] { run({order}, 1, n, {0, 2, 3}, false); });
  add("sorted", [=] { run({order}, 1, n, {0}, true); });
  add("order2", [=] { run({order, order}, th ? 2 : 6, n, {0}, true); });
  add("loss", [=] { run({loss}, 1, n, {0, 2, 4}, false); });
  add("loss2", [=] { run({loss, {BACK12, AHEAD, CLOSE, OLD, GAPWIDE}}, st, n, {0}, false); });
  add("gate", [=] { run({gate}, 1, n, {0, 1}, false); });
  add("gate2", [=] { run({gate, {OUT, BACK3, BACK12, CLOSE, OLD, AHEAD}}, st / 2, n, {1}, false); });
  add("life", [=] { run({life}, 1, n, {0, 1, 2, 4}, false); });
  add("life2", [=] { run({life, {BACK12, REINIT, RESET, EXT, AHEAD, OLD}}, st, n, {0, 1}, false); });
  add("ext", [=] { run({ext}, 1, n, {0, 3, 4}, false); });
  add("ext2", [=] { run({ext, {EXT, EXTOLD, BACK12, REINIT, SPIKE, GAPWIDE}}, st, n, {0}, false); });
  add("imu", [=] { run({imu}, 1, n, {0, 4}, false); });
  add("imu2", [=] { run({imu, {SPIKE, BACK12, REINIT, EXT, OLD}}, st, n, {0}, false); });
  add("set", [=] { run({set}, 1, n, {0, 2, 3, 4}, false); });
  add("set2", [=] { run({set, {SET0, SET1, SET2, BACK12, REINIT}}, st, n, {0, 1}, false); });
  return mc::mainLoop(argc, argv, L);
}
