// Hostile input histories (C22): no crash, memory error or hang, and a re-initialization restores normal operation.
#include "drive.hpp"
#include <limits>
using std::vector; using ref::V; typedef ref::M Mat;
static const vector<int> S = sensors();
static const double NAN_ = std::numeric_limits<double>::quiet_NaN(), INF_ = std::numeric_limits<double>::infinity();
static const double LAST = 4294967290.0;          // about the largest ROS time
struct Run { Node n; double t = T0; int k = 0; bool gref = false; double gr[3] = {47.3, 8.5, 400}; explicit Run(const Pars& p) : n(p) { n.lockstep = false; } };
struct Ev { std::string name; std::function<void(Run&)> f; };
static void imuAt(Run& r, double t, D3 a, D3 g) { r.n.imu(t, a, g); }
static vector<float> stv(float x) { vector<float> s(16, 0.f); s[0] = x; s[1] = 2; s[2] = 3; s[6] = 0.8f; s[8] = 0.6f; return s; }
static void poseTo(Run& r, double t, const D3& p, const DQ& q, const double* c, int topic) { r.n.pose(t, p, q, c, (Node::PoseTopic)topic); }
// one reading of sensor s; value kinds: 0 ordinary, 1 NaN, 2 infinite, 3 huge, 4 zero / degenerate
static void reading(Run& r, int s, double t, int v) {
  double x = v == 0 ? 1.0 : v == 1 ? NAN_ : v == 2 ? INF_ : v == 3 ? 1e300 : 0;
  if (s == 0) { double c[36]; for (int i = 0; i < 36; ++i) c[i] = v == 0 ? (i % 7 == 0 ? 1e-4 : 0) : v == 4 ? 0 : v == 3 ? -1e300 : x; poseTo(r, t, D3(1.2 * x, 2.4, 3.6 * x), v == 0 ? axq(0.5, 0, 1, 1) : v == 1 ? DQ(NAN_, 0, 0, 1) : v == 4 ? DQ(0, 0, 0, 0) : v == 2 ? DQ(1, INF_, 0, 0) : DQ(1e200, 1e200, 0, 0), c, 0); }
  else if (s == 1) r.n.position(t, D3(x, 2 * x, 3)); else if (s == 2) r.n.pressure(t, 0.4 * x);
  else if (s == 3) r.n.angle(t, 0.9 * x, v == 2 ? 1.1 : 1.1 * x); else r.n.distance(t, v == 4 ? -1 : 3.8 * x);
}
template<class F> static void recfg(Run& r, F f) { fakeros::reconfigure<Cfg>(r.n.w, CFGNS, f); r.n.cfg = cfgAll(fakeros::server<Cfg>(r.n.w, CFGNS).config); }
static const vector<Ev>& events() {
  static vector<Ev> L; if (!L.empty()) return L;
  auto add = [&](const std::string& nm, std::function<void(Run&)> f) { L.push_back({nm, f}); };
  auto ok = [](Run& r) { ++r.k; return accOf(r.k); };
  add("imu", [=](Run& r) { r.t += DT; D3 a = ok(r); r.n.imu(r.t, a, gyrOf(r.k)); });
  add("imu NaN acceleration", [](Run& r) { r.t += DT; r.n.imu(r.t, D3(NAN_, 0, 9.8), D3(0, 0, 0)); });
  add("imu infinite rate", [](Run& r) { r.t += DT; r.n.imu(r.t, D3(0, 0, 9.8), D3(0, INF_, 0)); });
  add("imu huge", [](Run& r) { r.t += DT; r.n.imu(r.t, D3(1e300, -1e300, 9.8), D3(1e300, 0, 0)); });
  add("imu zero stamp", [=](Run& r) { r.n.imu(0, ok(r), gyrOf(r.k)); });
  add("imu repeated stamp", [=](Run& r) { r.n.imu(r.t, ok(r), gyrOf(r.k)); });
  add("imu backward", [=](Run& r) { r.t -= 50; r.n.imu(r.t, ok(r), gyrOf(r.k)); });
  add("imu a little backward", [=](Run& r) { r.n.imu(r.t - 0.015, ok(r), gyrOf(r.k)); });
  add("imu far ahead", [=](Run& r) { r.t += 1e6; r.n.imu(r.t, ok(r), gyrOf(r.k)); });
  add("imu at the end of time", [=](Run& r) { r.n.imu(LAST, ok(r), gyrOf(r.k)); });
  auto ext = [&](const char* nm, std::function<double(Run&)> t, vector<float> st, int flag, D3 a = D3(0, 0, 9.8), D3 g = D3(0, 0, 0)) { add(nm, [=](Run& r) { r.n.external(t(r), a, g, st, flag); }); };
  auto nx = [](Run& r) { return r.t += DT; };
  ext("external", nx, stv(4), 1); ext("external empty", nx, {}, 1); ext("external short", nx, vector<float>(9, 1.f), 1); ext("external 15 values", nx, vector<float>(15, 1.f), 1);
  { vector<float> s = stv(1); s.resize(64, 7.f); ext("external long", nx, s, 1); }
  { vector<float> s = stv(1); s[2] = NAN; ext("external NaN", nx, s, 1); }
  { vector<float> s = stv(1); s[6] = s[8] = 0; ext("external zero quaternion", nx, s, 1); }
  ext("external unknown flag", nx, stv(2), 200); ext("external ignored", nx, stv(2), 0); ext("external as initialization", nx, stv(2), 2); ext("external as correction", nx, stv(2), 3);
  ext("external zero stamp", [](Run&) { return 0.0; }, stv(3), 1); ext("external backward", [](Run& r) { return r.t -= 30; }, stv(3), 1); ext("external far ahead", [](Run& r) { return r.t += 1e5; }, stv(3), 1);
  ext("external NaN rate", nx, stv(3), 1, D3(0, 0, 9.8), D3(NAN_, 0, 0));
  add("init", [](Run& r) { r.n.init(r.t); }); add("init scale zero", [](Run& r) { r.n.init(r.t, 0); }); add("init scale NaN", [](Run& r) { r.n.init(r.t, NAN_); }); 
  if (cfgHas<Cfg>("core_set_height")) { add("set height", [](Run& r) { recfg(r, [](Cfg& c) { cfgSet(c, "core_height", 1); cfgSet(c, "core_set_height", 1); }); }); add("set height zero", [](Run& r) { recfg(r, [](Cfg& c) { cfgSet(c, "core_height", 0); cfgSet(c, "core_set_height", 1); }); }); }
  if (std::string(KIND) == "pose") {
    for (double v : {0.0, -1.0, NAN_, INF_}) { add(mc::fmt("service scale %g", v), [=](Run& r) { r.n.w.out.clear(); sensor_fusion_comm::InitScale::Request q; sensor_fusion_comm::InitScale::Response s; q.scale = v; r.n.w.call<sensor_fusion_comm::InitScale>("/node/pose_sensor/initialize_msf_scale", q, s); });
      add(mc::fmt("service height %g", v), [=](Run& r) { r.n.w.out.clear(); sensor_fusion_comm::InitHeight::Request q; sensor_fusion_comm::InitHeight::Response s; q.height = v; r.n.w.call<sensor_fusion_comm::InitHeight>("/node/pose_sensor/initialize_msf_height", q, s); }); }
  }
  for (int s : S) {
    std::string m = "sensor " + std::to_string(s) + " ";
    add(m + "reading", [=](Run& r) { reading(r, s, r.t, 0); }); add(m + "delayed", [=](Run& r) { reading(r, s, r.t - 0.025, 0); }); add(m + "NaN", [=](Run& r) { reading(r, s, r.t, 1); });
    add(m + "infinite", [=](Run& r) { reading(r, s, r.t, 2); }); add(m + "huge", [=](Run& r) { reading(r, s, r.t, 3); }); add(m + "degenerate", [=](Run& r) { reading(r, s, r.t, 4); });
    add(m + "zero stamp", [=](Run& r) { reading(r, s, 0, 0); }); add(m + "pending", [=](Run& r) { reading(r, s, r.t + 0.015, 0); }); add(m + "pending NaN", [=](Run& r) { reading(r, s, r.t + 0.004, 1); });
    add(m + "far ahead", [=](Run& r) { reading(r, s, r.t + 1e6, 0); }); add(m + "long ago", [=](Run& r) { reading(r, s, r.t - 800, 0); }); add(m + "end of time", [=](Run& r) { reading(r, s, LAST, 0); });
  }
  if (S[0] == 0) for (int tp = 1; tp < 4; ++tp) { add(mc::fmt("pose topic %d", tp), [=](Run& r) { poseTo(r, r.t, D3(1, 2, 3), DQ(1, 0, 0, 0), nullptr, tp); }); add(mc::fmt("pose topic %d NaN", tp), [=](Run& r) { poseTo(r, r.t, D3(NAN_, 2, 3), DQ(0, 0, 0, 0), nullptr, tp); }); }
  bool pos = false; for (int s : S) pos |= s == 1;
  if (pos) {
    static const double cn[9] = {1e-4, 0, 0, 0, 1e-4, 0, 0, 0, 1e-4}, cb[9] = {NAN_, 0, 0, 0, -1, 0, 0, 0, INF_};
    add("position transform", [](Run& r) { r.n.position(r.t, D3(1, 2, 3), Node::PTRANSFORM); });
    auto gps = [&](const char* nm, double la, double lo, double al, const double* c, int ct) { add(nm, [=](Run& r) { if (!r.gref && std::isfinite(la)) { r.gref = true; r.gr[0] = la; r.gr[1] = lo; r.gr[2] = al; } r.n.gps(r.t, la, lo, al, D3(0, 0, 0), c, ct); }); };
    gps("gps", 47.3, 8.5, 400, cn, 2); gps("gps NaN", NAN_, NAN_, NAN_, cb, 2); gps("gps bad covariance", 47.3001, 8.5, 400, cb, 2); gps("gps pole", 90, 0, 0, cn, 0); gps("gps out of range", 4000, -7000, 1e5, nullptr, 250);
  }
  return L;
}
static Pars pars(int mode) {
  Pars p = hpars();
  if (mode == 1) { p.pose_gate = p.pos_gate = p.press_gate = p.sph_gate = true; p.pose_thr = p.pos_thr = p.press_thr = p.sph_thr = 5; p.pose_fixedcov = p.pos_fixedcov = false; p.world_sensor = false; p.cfg.clear(); for (const char* d : {"pose_delay", "position_delay", "angle_delay", "distance_delay"}) if (cfgHas<Cfg>(d)) p.cfg[d] = 0.05; }
  if (mode == 2) { p.pose_abs = false; p.playback = true; p.core["core_fixed_bias"] = 1; }
  if (mode == 3) p.pos_abs = p.sph_abs = p.pose_abs = false;
  return p;
}
static void normal(Run& r, Pars p) {          // fresh readings, initialization, normal operation in lock-step with a fresh reference
  Node& n = r.n; double t1 = T0 + 3000; mc::note("-- recovery");
  n.ref = ref::RefNode(KIND); n.cfg = cfgAll(fakeros::server<Cfg>(n.w, CFGNS).config); n.sync(); n.gotPose = n.gotPos = false; n.prevPose = -1e9; n.hl = vector<float>{0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  n.zp = n.zpos = ref::V3::Zero(); n.zq = ref::q4(1, 0, 0, 0); n.zpress = n.zang0 = n.zang1 = n.zdist = 0;
  static const double cg[9] = {0.1, 0, 0, 0, 0.1, 0, 0, 0, 0.1};
  auto other = [&](int s, double t, int k) { if (s == 1 && !p.pos_fixedcov) { double x[3] = {47.3 + 1e-6 * k, 8.5, 400 + 0.01 * k}; if (!r.gref) { r.gref = true; std::copy(x, x + 3, r.gr); } n.gps(t, x[0], x[1], x[2], enuOf(r.gr, x), cg, 2); } else deliver(n, {s, t, k}); };
  n.lockstep = n.blind = true; for (int s : S) { if (s == 0) { double c[36] = {0}; for (int i = 0; i < 6; ++i) c[7 * i] = 1e-4; n.pose(t1 - 1, D3(1.2, 2.4, 3.6), axq(0.5, 0, 1, 1), c); } else other(s, t1 - 1, 0); }
  n.blind = false; n.tolx = r.gref ? 1e-5 : 1e-8; n.tolP = r.gref ? 1e-4 : 1e-8; n.init(t1, 1.1);
  auto rd = [&](int s, double t, int k) { if (s == 0) { double c[36] = {0}; for (int i = 0; i < 6; ++i) c[7 * i] = 1e-3; n.pose(t, D3(1.2, 2.41, 3.6 + 0.01 * k), axq(0.5 + 0.01 * k, 0, 1, 1), c); } else other(s, t, k); };
  for (int k = 1; k <= 9; ++k) { n.imu(t1 + DT * k, accOf(k), gyrOf(k)); if (k == 5 || k == 8) for (int s : S) rd(s, t1 + DT * k - (k == 8 ? 0.007 : 0), k); }
  mc::require(n.ref.inited, "harness", "reference not initialized"); mc::outcome(n.hash());
}
static void c22(int depth, vector<int> situations, vector<int> modes) {
  int sit = mc::pick(situations), md = mc::pick(modes); Pars p = pars(md); Run r(p);
  if (sit >= 1) { for (int s : S) reading(r, s, T0 - 1, 0); r.n.init(T0); }
  if (sit >= 2) for (int i = 0; i < 5; ++i) events()[0].f(r);
  if (sit >= 3) { reading(r, S[0], r.t, 0); reading(r, S.back(), r.t + 0.016, 0); events()[0].f(r); }
  for (int i = 0; i < depth; ++i) { auto& e = mc::pick(events()); mc::note("* %s", e.name.c_str()); e.f(r); mc::state(mc::mix(r.n.w.out.size(), r.n.w.order + 1000 * i)); }
  for (int i = 0; i < 3; ++i) events()[0].f(r);
  if (md < 3) normal(r, p);            // relative positions are not supported by the filter: memory safety only
}
int main(int argc, char** argv) {
  vector<mc::Scenario> L; bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough";
  auto add = [&](const char* nm, std::function<void()> f, int sd = 3, int to = 30) { mc::Scenario s; s.name = nm; s.fn = f; s.sharddepth = sd; s.timeout_s = to; L.push_back(s); };
  add("c22_pairs", [=] { int md = mc::choose(3); c22(2, th || md == 1 ? vector<int>{0, 1, 2, 3} : vector<int>{3}, {md}); }, 4);
  if (S[0] != 0 || S.back() == 1) add("c22_relative", [] { c22(2, {2, 3}, {3}); }, 4);
  if (th) add("c22_triples", [] { int md = mc::choose(3); c22(3, md == 1 ? vector<int>{0, 1, 2, 3} : vector<int>{3}, {md}); }, 5);
  return mc::mainLoop(argc, argv, L);
}
