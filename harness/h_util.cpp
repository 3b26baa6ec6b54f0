// Stand-alone parts: timing statistics (C17), GPS conversion (C18), similarity alignment (C19), helpers (C23), distortion (C24).
#include "mc.hpp"
#include <chrono>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <msf_timing/Timer.h>
#include <msf_core/gps_conversion.h>
#include <msf_core/similaritytransform.h>
#include <msf_core/msf_tools.h>
#include <msf_core/eigen_utils.h>
#include <msf_core/falsecolor.h>
#include <msf_updates/PoseDistorter.h>
using std::vector; using std::string; using mc::fmt;
typedef Eigen::Vector3d D3; typedef Eigen::Quaterniond DQ; typedef long double R;
// ---- the clock of the timers
static long long g_ns = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(g_ns))); } } } }
static void near(double a, double b, const char* key, const string& what, double tol = 1e-9) { mc::check(); double d = std::fabs(a - b) / (1 + std::fabs(b)); mc::deviation(d); if (!(d <= tol)) mc::fail(key, fmt("%s is %.15g, expected %.15g", what.c_str(), a, b)); }
// ---- C17
struct Stat { vector<R> v; int N = 50;
  int win() const { return std::min((int)v.size(), N); }
  R sum() const { R s = 0; for (R x : v) s += x; return s; }
  R wmean() const { R s = 0; for (int i = 0; i < win(); ++i) s += v[v.size() - 1 - i]; return s / win(); }
  R wvar() const { R m = wmean(), s = 0; for (int i = 0; i < win(); ++i) { R d = v[v.size() - 1 - i] - m; s += d * d; } return s / win(); }
  R mn() const { return *std::min_element(v.begin(), v.end()); } R mx() const { return *std::max_element(v.begin(), v.end()); } };
template<class A> static void accEqual(const A& a, const Stat& s, double tol = 1e-12) {
  mc::require(a.TotalSamples() == (int)s.v.size(), "sample-count", fmt("%d samples, expected %zu", a.TotalSamples(), s.v.size())); near(a.Sum(), s.sum(), "sum", "sum", tol);
  if (s.v.empty()) { near(a.LazyVariance(), 0, "variance", "variance of nothing", tol); return; }
  near(a.Mean(), s.sum() / s.v.size(), "mean", "mean", tol); near(a.RollingMean(), s.wmean(), "rolling-mean", "mean over the window", tol); near(a.LazyVariance(), s.wvar(), "variance", "variance over the window", tol);
  near(a.Min(), s.mn(), "minimum", "minimum", tol); near(a.Max(), s.mx(), "maximum", "maximum", tol);
}
static void c17window() { msf_timing::Accumulator<double, double, 3> a; Stat s; s.N = 3; accEqual(a, s); int n = mc::tier(7, 9);
  for (int i = 0; i < n; ++i) { double x = mc::pick(vector<double>{-2, 0, 1, 5.5}); a.Add(x); s.v.push_back(x); mc::transition(); accEqual(a, s); } uint64_t h = 1; for (R x : s.v) h = mc::mix(h, (uint64_t)(int)(x * 2)); mc::state(h); mc::outcome(h); }
static void c17long() {          // around the boundary of the real window of 50
  msf_timing::Accumulator<double, double, 50> a; Stat s; vector<double> val = {0.25, -1, 3}; static const int len[6] = {1, 2, 49, 50, 51, 101};
  for (int b = 0; b < 3; ++b) { int n = len[mc::choose(6)]; double x = mc::pick(val); for (int i = 0; i < n; ++i) { double y = x + 0.01 * i * b; a.Add(y); s.v.push_back(y); mc::transition(); accEqual(a, s, 1e-11); } } mc::state(s.v.size()); mc::outcome((uint64_t)llround((double)s.sum() * 1e3)); }
using msf_timing::Timing; using msf_timing::Timer;
struct TimerModel { std::map<string, size_t> tag; vector<Stat> st; 
  size_t handle(const string& t) { auto it = tag.find(t); if (it != tag.end()) return it->second; return 0; } };
static void c17timers(int depth) {
  struct T { std::unique_ptr<Timer> t; bool run = false; long long since = 0; string tag; };
  // every process execution starts from a reset registry; handles continue to grow
  Timing::Reset(); g_ns = 1000000000; std::map<string, Stat> st; std::map<string, size_t> h; vector<std::pair<size_t, string>> old; vector<T> ts(2); static const char* tags[2] = {"alpha", "b"};
  auto verify = [&] {
    for (int i = 0; i < 2; ++i) { string tg = tags[i]; if (!h.count(tg)) continue; mc::transition();
      mc::require(Timing::GetHandle(tg) == h[tg], "handle-changed", tg); mc::require(Timing::GetTag(h[tg]) == tg, "tag-of-handle", Timing::GetTag(h[tg])); Stat& s = st[tg];
      mc::require(Timing::GetNumSamples(tg) == s.v.size() && Timing::GetNumSamples(h[tg]) == s.v.size(), "sample-count", fmt("timer %s has %zu samples, expected %zu", tg.c_str(), Timing::GetNumSamples(tg), s.v.size()));
      near(Timing::GetTotalSeconds(tg), s.sum(), "sum", "total"); near(Timing::GetTotalSeconds(h[tg]), s.sum(), "sum", "total"); if (s.v.empty()) continue;
      near(Timing::GetMeanSeconds(tg), s.sum() / s.v.size(), "mean", "mean"); near(Timing::GetMeanSeconds(h[tg]), s.sum() / s.v.size(), "mean", "mean"); near(Timing::GetMinSeconds(tg), s.mn(), "minimum", "minimum"); near(Timing::GetMaxSeconds(tg), s.mx(), "maximum", "maximum"); near(Timing::GetMinSeconds(h[tg]), s.mn(), "minimum", "minimum"); near(Timing::GetMaxSeconds(h[tg]), s.mx(), "maximum", "maximum");
      near(Timing::GetVarianceSeconds(tg), s.wvar(), "variance", "variance"); near(Timing::GetVarianceSeconds(h[tg]), s.wvar(), "variance", "variance"); if (s.wmean() != 0) { near(Timing::GetHz(tg), 1 / s.wmean(), "rate", "rate"); near(Timing::GetHz(h[tg]), 1 / s.wmean(), "rate", "rate"); } }
    mc::require(Timing::GetTimers().size() == h.size(), "timer-list", fmt("%zu timers, expected %zu", Timing::GetTimers().size(), h.size()));
    for (auto& t : ts) if (t.t) mc::require(t.t->IsTiming() == t.run, "is-timing", t.tag);
  };
  auto lost = [&](T& t) { return !h.count(t.tag) || old.size(); };  (void)lost;
  auto fin = [&](T& t) { if (t.run) { if (t.tag != "gone") st[t.tag].v.push_back((R)(g_ns - t.since) * 1e-9L); t.run = false; } };
  auto def = [&](int i) { string tg = tags[i]; if (!h.count(tg)) { h[tg] = Timing::GetHandle(tg); for (auto& o : old) mc::require(o.first != h[tg], "handle-reused", tg); for (auto& e : h) if (e.first != tg) mc::require(e.second != h[tg], "handle-shared", tg); } };
  for (int d = 0; d < depth; ++d) {
    int e = mc::choose(15), i = e % 2; T& t = ts[i];
    switch (e / 2) {
      case 0: mc::note("construct %s running", tags[i]); def(i); fin(t); t.t.reset(new Timer(string(tags[i]))); t.tag = tags[i]; t.run = true; t.since = g_ns; break;
      case 1: mc::note("construct %s stopped, by handle", tags[i]); def(i); fin(t); t.t.reset(new Timer(h[tags[i]], true)); t.tag = tags[i]; t.run = false; break;
      case 2: mc::note("start %s", tags[i]); if (t.t) { t.t->Start(); t.run = true; t.since = g_ns; } break;
      case 3: mc::note("stop %s", tags[i]); if (t.t) { t.t->Stop(); fin(t); } break;
      case 4: mc::note("destroy %s", tags[i]); fin(t); t.t.reset(); break;
      case 5: { long long a = i ? 1500000000LL : 7; mc::note("clock +%lld ns", a); g_ns += a; break; }
      case 6: if (i) { mc::note("dummy timer"); msf_timing::DummyTimer dt(tags[0]); dt.Start(); g_ns += 3; dt.Stop(); mc::require(!dt.IsTiming(), "dummy-timer", ""); } else { mc::note("clock set back"); g_ns -= 2000000; } break;
      default: mc::note("reset"); for (auto& x : h) old.push_back({x.second, x.first}); Timing::Reset(); h.clear(); st.clear(); for (auto& x : ts) x.tag = "gone"; break;
    }
    verify(); uint64_t hh = 5; for (auto& s : st) for (R x : s.second.v) hh = mc::mix(hh, (uint64_t)llround((double)x * 1e9)); mc::state(mc::mix(hh, ts[0].run * 4 + ts[1].run * 2 + h.size() * 8));
  }
  for (auto& x : ts) { fin(x); x.t.reset(); } verify();
  string txt = Timing::Print(); for (auto& x : h) { size_t p = txt.find(x.first); mc::require(p != string::npos, "print-misses-timer", x.first); Stat& s = st[x.first];
    std::istringstream is(txt.substr(p, txt.find('\n', p) - p)); string nm; size_t n; is >> nm >> n; mc::require(n == s.v.size(), "print-count", txt);
    if (n && s.sum() >= 0 && s.mn() >= 0 && s.sum() < 59) { double tot = 0; is >> tot; near(tot, s.sum(), "print-total", "printed total", 1e-6); string rest; std::getline(is, rest); for (char& c : rest) if (string("()[],+-").find(c) != string::npos) c = ' '; std::istringstream rs(rest); double m = 0, sd = 0, a = 0, b = 0; rs >> m >> sd >> a >> b;
      near(m, s.sum() / n, "print-mean", "printed mean", 1e-6); near(sd, std::sqrt(s.wvar()), "print-stddev", "printed deviation", 1e-6); near(a, s.mn(), "print-minimum", "printed minimum", 1e-6); near(b, s.mx(), "print-maximum", "printed maximum", 1e-6); } }
  mc::outcome(std::hash<string>()(txt));
}
static void c17registry() {      // more intervals than the window, through the timers and the registry, by name and by handle
  Timing::Reset(); g_ns = 1000000000; static const int len[5] = {1, 49, 50, 51, 101}; static const long long dur[3] = {250000, 2000000000, 40}; vector<string> tags = {"t", "a longer tag"}; vector<Stat> st(2);
  for (int b = 0; b < 3; ++b) { int w = mc::choose(2), n = len[mc::choose(5)]; long long d = dur[mc::choose(3)]; mc::note("%d intervals of %lld ns in '%s'", n, d, tags[w].c_str());
    for (int i = 0; i < n; ++i) { long long e = d + 3 * i * b; { Timer t(tags[w], true); t.Start(); g_ns += e; if (i % 3) t.Stop(); } g_ns += 11; st[w].v.push_back((R)e * 1e-9L); mc::transition(); }
    for (int k = 0; k < 2; ++k) { Stat& s = st[k]; const string& tg = tags[k]; if (s.v.empty()) continue; size_t h = Timing::GetHandle(tg); auto both = [&](double x, double y, R want, const char* key) { near(x, want, key, tg + " " + key, 1e-7); near(y, want, key, tg + " " + key + " by handle", 1e-7); };
      mc::require(Timing::GetNumSamples(tg) == s.v.size() && Timing::GetNumSamples(h) == s.v.size(), "sample-count", fmt("timer %s has %zu samples, expected %zu", tg.c_str(), Timing::GetNumSamples(tg), s.v.size()));
      both(Timing::GetTotalSeconds(tg), Timing::GetTotalSeconds(h), s.sum(), "sum"); both(Timing::GetMeanSeconds(tg) * 1e6, Timing::GetMeanSeconds(h) * 1e6, s.sum() / s.v.size() * 1e6L, "mean"); both(Timing::GetMinSeconds(tg) * 1e6, Timing::GetMinSeconds(h) * 1e6, s.mn() * 1e6L, "minimum"); both(Timing::GetMaxSeconds(tg) * 1e6, Timing::GetMaxSeconds(h) * 1e6, s.mx() * 1e6L, "maximum");
      R scale = s.mx() * s.mx(), wm = s.wmean(); both(Timing::GetVarianceSeconds(tg) / scale, Timing::GetVarianceSeconds(h) / scale, s.wvar() / scale, "variance");
      if (wm > s.mx() * 1e-6L && wm > 1e-6L) { both(Timing::GetHz(tg) * wm, Timing::GetHz(h) * wm, 1, "rate"); } } }
  uint64_t x = st[0].v.size() * 1000 + st[1].v.size(); mc::state(mc::mix(x, (uint64_t)llround((double)(st[0].sum() * 3 + st[1].sum()) * 1e9))); mc::outcome(mc::mix(x, (uint64_t)llround((double)(st[0].sum() * 3 + st[1].sum()) * 1e9)));
}
static void c17text() {          // seconds within the minute with six decimals
  int m = mc::choose(4), i = mc::choose(60), f = mc::choose(6); static const int fr[6] = {0, 1, 500000, 123456, 999999, 70}; double s = 60.0 * (m == 3 ? 59 + 60 * 7 : m) + i + fr[f] * 1e-6 + 1e-8; string t = Timing::SecondsToTimeString(s); char b[64];
#if defined(SM_TIMING_SHOW_HOURS)
  snprintf(b, 64, "%02d:%02d:%02d.%06d", m == 3 ? 7 : 0, m == 3 ? 59 : m, i, fr[f]);
#else
  snprintf(b, 64, "%02d.%06d", i, fr[f]);
#endif
  mc::transition(); mc::require(t == b, "time-text", fmt("%.9f s is shown as %s, expected %s", s, t.c_str(), b)); mc::outcome(std::hash<string>()(t));
}
// ---- C18
static const vector<double> LAT = {-90, -89.9999, -60, -33.856, -1e-6, 0, 0.5, 47.376, 78.2, 89.99, 90}, LON = {-180, -179.9999, -120.5, -90, -1e-5, 0, 8.54, 90, 135, 179.9999, 180}, ALT = {-400, 0, 408, 8848, 400000};
static void geo(R lat, R lon, R alt, R* o) { const R a = 6378137.0L, e2 = 6.69437999014e-3L, d = acosl(-1.0L) / 180; R s = sinl(lat * d), c = cosl(lat * d), N = a / sqrtl(1 - e2 * s * s); o[0] = (N + alt) * c * cosl(lon * d); o[1] = (N + alt) * c * sinl(lon * d); o[2] = (N * (1 - e2) + alt) * s; }
static void enu(R lat, R lon, const R* d, R* o) { const R k = acosl(-1.0L) / 180; R sa = sinl(lat * k), ca = cosl(lat * k), so = sinl(lon * k), co = cosl(lon * k); o[0] = -so * d[0] + co * d[1]; o[1] = -sa * co * d[0] - sa * so * d[1] + ca * d[2]; o[2] = ca * co * d[0] + ca * so * d[1] + sa * d[2]; }
static void mm(const D3& a, const R* b, const char* key, const string& what, R scale) { for (int i = 0; i < 3; ++i) { mc::check(); R d = fabsl(a[i] - b[i]) / scale; mc::deviation((double)d); if (!(d < 1e-8L)) mc::fail(key, fmt("%s[%d] is %.9f m, expected %.9Lf m", what.c_str(), i, a[i], b[i])); } }
static void c18convert() {
  double la = mc::pick(LAT), lo = mc::pick(LON), al = mc::pick(ALT); msf_core::GPSConversion g; int again = mc::choose(2); if (again) g.InitReference(12, 34, 56); g.InitReference(la, lo, al); mc::transition();
  R o[3]; geo(la, lo, al, o); D3 e = g.WGS84ToECEF(la, lo, al); mm(e, o, "ecef", fmt("earth-centred coordinates of %g %g %g", la, lo, al), 1e6); R z[3] = {0, 0, 0}; mm(g.WGS84ToENU(la, lo, al), z, "origin", "reference point", 1);
  vector<D3> pts, loc; 
  for (int i = 0; i < 8; ++i) { static const double dd[8][3] = {{0, 0, 10}, {1e-5, 0, 0}, {0, 1e-5, 0}, {-0.02, 0.03, 50}, {5, -7, 100}, {0, 0, -30}, {-1e-4, -2e-4, 2}, {0.3, 0, 0}}; double a = la + (la > 80 ? -std::fabs(dd[i][0]) : la < -80 ? std::fabs(dd[i][0]) : dd[i][0]), b = lo + dd[i][1], c = al + dd[i][2]; R p[3], d[3], w[3]; geo(a, b, c, p); for (int k = 0; k < 3; ++k) d[k] = p[k] - o[k]; enu(la, lo, d, w); R n = sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); R sc = std::max((R)1, n / 10);
    D3 l = g.WGS84ToENU(a, b, c); mm(l, w, "local", fmt("local coordinates of %.6f %.6f %.1f from %g %g %g", a, b, c, la, lo, al), sc); D3 ec(p[0], p[1], p[2]); mm(g.ECEFToENU(ec), w, "ecef-to-enu", "conversion of earth-centred coordinates", sc); pts.push_back(ec); loc.push_back(l); }
  for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < i; ++j) near((loc[i] - loc[j]).norm(), (pts[i] - pts[j]).norm(), "distance", "distance of two points", 1e-7);
  mc::state(mc::mix((uint64_t)llround(e[0]), (uint64_t)llround(e[2]))); mc::outcome((uint64_t)llround(e[0] + 3 * e[1] + 7 * e[2]));
}
static void c18adjust() {        // the reference raised: everything appears lower, nothing moves sideways
  double la = mc::pick(LAT), lo = mc::pick(LON), dz = mc::pick(vector<double>{0, 12.5, -300}), dz2 = mc::pick(vector<double>{0, -1}); msf_core::GPSConversion g, h; g.InitReference(la, lo, 100); h.InitReference(la, lo, 100); g.AdjustReference(dz); g.AdjustReference(dz2); mc::transition();
  for (int i = 0; i < 3; ++i) { double a = la > 0 ? la - 0.01 * i : la + 0.01 * i, b = lo + 0.02 * i, c = 100 + 40 * i; D3 x = g.WGS84ToENU(a, b, c), y = h.WGS84ToENU(a, b, c); R w[3] = {y[0], y[1], y[2] - dz - dz2}; mm(x, w, "adjusted-reference", fmt("local coordinates after a height correction of %g at %g %g", dz + dz2, la, lo), 10); }
  mc::outcome((uint64_t)llround(la * 7 + lo * 1000 + dz));
}
// ---- C19
static DQ axq(double ang, D3 a) { a.normalize(); return DQ(Eigen::AngleAxisd(ang, a)); }
static void c19(int nmax) {
  using namespace msf_core; using namespace msf_core::similarity_transform;
  static const vector<D3> axes = {D3(0, 0, 1), D3(1, 0, 0), D3(1, 1, -1), D3(0.2, -3, 1)}; double ang = mc::pick(vector<double>{0, 0.001, 1, M_PI / 2, 3, M_PI}); D3 ax = mc::pick(axes); DQ q = axq(ang, ax);
  double s = mc::pick(vector<double>{1, 0.1, 3.5, 100}); D3 t = mc::pick(vector<D3>{D3(0, 0, 0), D3(0.1, -0.2, 0.3), D3(100, 5, -40)}); int m = 2 + mc::choose(nmax - 1), set = mc::choose(3), sign = mc::choose(3), order = mc::choose(2), cm = mc::choose(2);
  // pose 2 = pose 1 followed by the transform, its position divided by the scale
  vector<std::pair<Pose, Pose>> v; for (int i = 0; i < m; ++i) {
    D3 p1 = set == 0 ? D3(i + 1, 2 - i * i, 0.5 * i) : set == 1 ? D3(0.01 * i, 0, 0.02) : D3(30 * std::sin(2.0 * i), 40 * std::cos(1.3 * i), 10 + 5 * i); DQ q1 = axq(set == 1 ? 0.3 + 0.1 * i : 0.9 * i, D3(1, 0.5 * i, 0.3 - i)); DQ q2 = q1 * q; D3 p2 = (p1 + q1 * t) / s;
    if (sign == 1 && i % 2) q2.coeffs() *= -1; if (sign == 2 && i % 3 == 0) q1.coeffs() *= -1;
    Pose a, b; auto put = [](Pose& o, const D3& p, const DQ& r) { o.pose.position.x = p[0]; o.pose.position.y = p[1]; o.pose.position.z = p[2]; o.pose.orientation.w = r.w(); o.pose.orientation.x = r.x(); o.pose.orientation.y = r.y(); o.pose.orientation.z = r.z(); }; put(a, p1, q1); put(b, p2, q2); v.push_back({a, b}); }
  if (order) std::reverse(v.begin(), v.end());
  // only sets that determine the transform: independent condition number of the normal equations
  Eigen::MatrixXd A(3 * m, 4); for (int i = 0; i < m; ++i) { auto& o = v[i].first.pose.orientation; DQ q1(o.w, o.x, o.y, o.z); auto& p = v[i].second.pose.position; A.block<3, 3>(3 * i, 0) = -Eigen::Matrix3d::Identity(); A.block<3, 1>(3 * i, 3) = q1.inverse() * D3(p.x, p.y, p.z); }
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(A); double c = svd.singularValues()[0] / svd.singularValues()[3]; if (!(c < 1e4) || svd.singularValues()[3] < 1e-4) throw mc::Prune();
  From6DoF f; Pose none; double sc = -1, cond = 0; Pose r; 
  mc::require(!f.Compute(none), "too-few", "transform computed from nothing");
  for (int i = 0; i < m; ++i) { if (i % 2) f.AddMeasurement(v[i]); else f.AddMeasurement(v[i].first, v[i].second); if (i == 0) mc::require(!f.Compute(none), "too-few", "transform computed from one pair"); mc::transition(); }
  bool ok = cm ? f.Compute(r, &sc, &cond) : f.Compute(r, &sc); mc::require(ok, "no-result", fmt("%d pairs", m)); double tol = 1e-12 * c * c * (1 + t.norm()) + 1e-11;
  if (cm) near(std::sqrt(cond) / c, 1, "condition", "condition number (square root, relative)", 1e-3);
  near(sc / s, 1, "scale", fmt("scale (relative, true %g)", s), tol); near((D3(r.pose.position.x, r.pose.position.y, r.pose.position.z) - t).norm() / (1 + t.norm()), 0, "translation", "translation error", tol * (1 + s));
  DQ e(r.pose.orientation.w, r.pose.orientation.x, r.pose.orientation.y, r.pose.orientation.z); near(e.norm(), 1, "rotation-norm", "norm", 1e-9); near(1 - std::fabs(e.dot(q)), 0, "rotation", "rotation error", 1e-12);
  Pose r2; double sc2 = 0; f.Compute(r2, &sc2); near(sc2, sc, "repeatable", "scale computed again", 1e-15); f.Compute(r2); near(r2.pose.position.x, r.pose.position.x, "repeatable", "position computed without asking for the scale", 1e-12);
  mc::state(mc::mix((uint64_t)llround(e.w() * 1e6), (uint64_t)llround(sc * 1e3 + t[0]))); mc::outcome((uint64_t)llround(sc * 1e4));
}
static void c19blocks() {        // 3x3 covariance blocks of ROS messages
  using namespace msf_core; int r0 = mc::choose(2) * 3, c0 = mc::choose(2) * 3, k = mc::choose(9); geometry_msgs::PoseWithCovariance p; for (int i = 0; i < 36; ++i) p.covariance[i] = 0; Eigen::Matrix3d M = Eigen::Matrix3d::Zero(); M(k / 3, k % 3) = 2.5; if (r0 == c0) M(k % 3, k / 3) = 2.5;
  EigenCovBlockToGeometryMsgs(p.covariance, M, r0, c0); Eigen::Matrix3d B = GeometryMsgsCovBlockToEigen(p.covariance, r0, c0); mc::transition(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) near(B(i, j), M(i, j), "covariance-block", "block read back");
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { near(p.covariance[6 * i + j], p.covariance[6 * j + i], "covariance-symmetric", "mirrored entry"); bool in = (i / 3 * 3 == r0 && j / 3 * 3 == c0) || (i / 3 * 3 == c0 && j / 3 * 3 == r0); if (!in) near(p.covariance[6 * i + j], 0, "covariance-block", "entry outside of the block"); } mc::outcome(k + 100 * r0 + c0);
}
// ---- C23
template<int N> static void medianFixed() { Eigen::Matrix<double, N, 1> v; vector<double> s; static const vector<double> val = {-3, 0, 0.5, 7}; for (int i = 0; i < N; ++i) { v[i] = mc::pick(val); s.push_back(v[i]); } Eigen::Matrix<double, N, 1> w = v; std::sort(s.begin(), s.end()); double m = msf_core::GetMedian(v); mc::transition(); mc::require(m == s[N / 2], "median", fmt("median of %d numbers is %g, expected %g", N, m, s[N / 2])); mc::require(w == v, "median-modifies", "input changed");
  Eigen::VectorXd d = v; mc::require(msf_core::GetMedian(d) == s[N / 2], "median", fmt("median of a dynamic vector of %d numbers", N)); mc::state((uint64_t)(m * 2 + 100)); mc::outcome((uint64_t)(m * 2 + 100)); }
static void c23median() { switch (mc::choose(7)) { case 0: medianFixed<1>(); break; case 1: medianFixed<2>(); break; case 2: medianFixed<3>(); break; case 3: medianFixed<4>(); break; case 4: medianFixed<5>(); break; case 5: medianFixed<6>(); break; default: medianFixed<7>(); } }
static void c23empty() { Eigen::VectorXd v(0); mc::choose(2); mc::transition(); mc::require(msf_core::GetMedian(v) == 0, "median", "median of nothing"); mc::outcome(1); }
static const vector<double> G = {-3, -1, -0.1, -1e-7, 0, 1e-7, 0.01, 0.7, 2, 5};
static void c23matrices() {
  D3 a(mc::pick(G), mc::pick(G), mc::pick(G)), b(mc::pick(vector<double>{1, -0.5}), 0.3, mc::pick(vector<double>{-2, 0})); mc::transition(); auto eq = [&](double x, double y, const char* k) { near(x, y, k, fmt("(%g %g %g)", a[0], a[1], a[2]), 1e-14); };
  D3 c(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]), s = Skew(a) * b; for (int i = 0; i < 3; ++i) eq(s[i], c[i], "skew");
  // quaternion products written out, coefficients x y z w: Hamilton matrix (0, a) (x) q, JPL matrix q (x) (0, a)
  DQ q(0.5, 0.1, -0.7, 0.2); D3 qv(q.x(), q.y(), q.z()), x = qv.cross(a); Eigen::Vector4d o = OmegaMatHamilton(a) * q.coeffs(); DQ pa(0, a[0], a[1], a[2]), h = pa * q; for (int i = 0; i < 4; ++i) eq(o[i], h.coeffs()[i], "omega-hamilton");
  Eigen::Vector4d oj = OmegaMatJPL(a) * q.coeffs(); Eigen::Vector4d jj(q.w() * a[0] + x[0], q.w() * a[1] + x[1], q.w() * a[2] + x[2], -qv.dot(a)); for (int i = 0; i < 4; ++i) eq(oj[i], jj[i], "omega-jpl");
  Eigen::Vector4d xi = XiMat(q.coeffs()) * a; D3 xe = q.w() * a + qv.cross(a); for (int i = 0; i < 3; ++i) eq(xi[i], xe[i], "xi"); eq(xi[3], -qv.dot(a), "xi");
  DQ r = QuaternionFromSmallAngle(a); double n2 = a.squaredNorm() / 4; near(r.norm(), 1, "small-angle-norm", "norm", 1e-14); mc::require(r.w() >= 0, "small-angle-sign", "negative scalar part"); D3 rv(r.x(), r.y(), r.z()); 
  if (n2 < 0.999) { for (int i = 0; i < 3; ++i) eq(rv[i], a[i] / 2, "small-angle"); } else if (n2 > 1.001) for (int i = 0; i < 3; ++i) eq(rv[i] / r.w(), a[i] / 2, "small-angle-large");
  if (a.norm() < 0.02 && a.norm() > 0) { D3 t = r * D3(1, 2, 3), w = Eigen::AngleAxisd(a.norm(), a.normalized()) * D3(1, 2, 3); near((t - w).norm(), 0, "small-angle-rotation", "rotation by the vector", 1e-6); }
  mc::state((uint64_t)llround(r.w() * 1e9) + (uint64_t)llround(s[0] * 1e5)); mc::outcome((uint64_t)llround(s[1] * 1e6));
}
template<class M> static void finiteAt(M m, bool ok) { mc::transition(); mc::require(CheckForNumeric(m, "x") == ok, "finite-check", ok ? "finite matrix rejected" : "non-finite entry not noticed"); }
static void c23finite() {
  static std::ostringstream sink; struct Re { std::streambuf* o = std::cerr.rdbuf(sink.rdbuf()); ~Re() { std::cerr.rdbuf(o); sink.str(""); } } re;
  int shape = mc::choose(6), bad = mc::choose(5), pos = mc::choose(12); double v[5] = {1e300, NAN, INFINITY, -INFINITY, -4.9e-324}; bool ok = bad == 0 || bad == 4; 
  auto fill = [&](auto m) { m.setConstant(0.5); m(pos % m.rows(), pos / m.rows() % m.cols()) = v[bad]; finiteAt(m, ok); };
  if (shape == 0) fill(Eigen::Matrix<double, 3, 4>()); else if (shape == 1) fill(Eigen::MatrixXd(4, 3)); else if (shape == 2) fill(Eigen::VectorXd(12)); else if (shape == 3) fill(Eigen::Matrix<double, 3, 1>()); else if (shape == 4) fill(Eigen::Matrix<double, Eigen::Dynamic, 2>(6, 2)); else fill(Eigen::Matrix<double, 2, Eigen::Dynamic>(2, 6));
  mc::outcome(shape * 5 + bad);
}
static void c23human() { double k = mc::pick(vector<double>{0, 1, 7, 140000}), x = mc::pick(vector<double>{0, 0.25, 1, 5000.5, 9999.75}), v = k * 10000 + x; mc::transition(); near(msf_core::timehuman(v), x, "time-human", fmt("%.2f", v), 1e-12); if (x > 0) near(msf_core::timehuman(x - 10000), x, "time-human", "negative", 1e-12); mc::outcome((uint64_t)v); }
static void c23colour() {
  int pal = mc::choose(10), i = mc::choose(256); palette p = GetPalette((palette::palettetypes)pal); mc::transition(); const color& c = p.colors[i]; double x = i / 255.0, e[3] = {0, 0, 0}, tol = 1.01; double lg = std::log10(9 * x + 1) * 255; auto sn = [](double deg) { return (std::sin(deg * M_PI / 180) * 0.5 + 0.5) * 255; };
  auto jet = [](double j) { return j < 0 || j > 191 ? 0. : j < 64 ? j / 64 * 255 : j < 128 ? 255. : (191 - j) / 64 * 255; };
  switch (pal) { case 0: e[0] = i; break; case 1: e[0] = lg; break; case 2: e[0] = 255 - i; break; case 3: e[0] = e[1] = e[2] = i; break; case 4: e[0] = e[1] = e[2] = lg; break; case 5: e[0] = e[1] = e[2] = 255 - i; break;
    case 6: e[0] = sn(std::max(0.0, x * 360 - 120)); e[1] = sn(x * 360 + 60); e[2] = sn(x * 360 + 140); break; case 7: e[0] = sn(x * 360 + 120); e[1] = sn(x * 360 + 240); e[2] = sn(x * 360); break; case 8: e[0] = sn(x * 360 + 240); e[1] = sn(x * 360); e[2] = sn(x * 360 + 120); break;
    default: e[0] = jet(i - 95); e[1] = jet(i - 31); e[2] = jet(i + 33); tol = 6; }
  double g[3] = {(double)c.rgbRed, (double)c.rgbGreen, (double)c.rgbBlue}; for (int k = 0; k < 3; ++k) mc::require(std::fabs(g[k] - e[k]) <= tol, "colour", fmt("palette %d entry %d channel %d is %g, expected %g", pal, i, k, g[k], e[k])); mc::state(pal * 256 + i); mc::outcome(c.rgbRed * 65536 + c.rgbGreen * 256 + c.rgbBlue);
}
// ---- C24: artificial drift of pose readings
static void c24() {
  D3 mp = mc::pick(vector<D3>{D3(0, 0, 0), D3(0.5, -0.2, 0.1)}), ma = mc::pick(vector<D3>{D3(0, 0, 0), D3(0.1, 0.05, -0.2), D3(0, 0, 0.3)}); double ms = mc::pick(vector<double>{0, 0.02, -0.1}); int wh = mc::choose(3); D3 tiny = D3::Constant(1e-13); msf_updates::PoseDistorter d(mp, tiny, ma, tiny, ms, 1e-13);
  D3 drift(0, 0, 0); double sc = 1; DQ aq(1, 0, 0, 0); 
  for (int i = 0; i < 4; ++i) { double dt = mc::pick(vector<double>{0, 0.01, 0.5}); D3 p(1, 2 + i, -3); DQ q = axq(0.3 * i, D3(1, i, 2)); D3 p0 = p; DQ q0 = q; mc::transition();
    if (wh != 2) { drift += mp * dt; sc += ms * dt; } if (wh != 1) { D3 th = ma * dt; aq = aq * DQ(std::sqrt(1 - th.squaredNorm() / 4), th[0] / 2, th[1] / 2, th[2] / 2); }
    if (wh == 0) d.Distort(p, q, dt); else if (wh == 1) d.Distort(p, dt); else d.Distort(q, dt);
    D3 ep = wh != 2 ? D3((p0 + drift) * sc) : p0; DQ eq = wh != 1 ? q0 * aq : q0; near((p - ep).norm(), 0, "distorted-position", "position error", 1e-10); near((q.coeffs() - eq.coeffs()).norm(), 0, "distorted-attitude", "attitude error", 1e-10); mc::state((uint64_t)llround(p[0] * 1e6 + q.x() * 1e9)); }
  mc::outcome((uint64_t)llround(drift[0] * 1e6 + aq.x() * 1e9 + sc * 1e3));
}
int main(int argc, char** argv) {
  vector<mc::Scenario> L; bool th = false; for (int i = 1; i < argc; ++i) th = th || string(argv[i]) == "thorough";
  auto add = [&](const char* nm, std::function<void()> f, int sd = 2) { mc::Scenario s; s.name = nm; s.fn = f; s.sharddepth = sd; s.timeout_s = 30; L.push_back(s); };
  add("c17_window", c17window); add("c17_boundary", c17long); add("c17_timers", [=] { c17timers(th ? 6 : 5); }); add("c17_registry", c17registry); add("c17_text", c17text);
  add("c18_convert", c18convert); add("c18_adjust", c18adjust); add("c19_align", [=] { c19(th ? 8 : 5); }, 3); add("c19_blocks", c19blocks);
  add("c23_median", c23median); add("c23_empty", c23empty, 1); add("c23_matrices", c23matrices); add("c23_finite", c23finite); add("c23_timehuman", c23human); add("c23_colours", c23colour); add("c24_distort", c24);
  return mc::mainLoop(argc, argv, L);
}
