// C25: every composition of up to two auxiliary states (some, thorough all, of three) of six kinds behind the core states: the blocks each
// state owns in the state vector, the error vector, the covariance, the process noise and the correction.
// Compiled once per first kind (-DFIRST=0..5, -DFIRST=6: no auxiliary state); -DDEEP adds all lists of three.
#include <ros/ros.h>
#include <boost/fusion/container.hpp>
#include <msf_core/msf_core.h>
#include <msf_core/msf_state.h>
#include "mc.hpp"
#ifndef FIRST
#define FIRST 0
#endif
using namespace msf_core;
enum Def { p, v, q, b_w, b_a, x0, x1, x2 };
// kinds of auxiliary states: 0 scalar, 1 vector, 2 quaternion, 3 non-drifting quaternion, 4 non-drifting 2-vector, 5 multiplicative scalar
template<int K, int NAME> struct Kind;
template<int N> struct Kind<0, N> { typedef StateVar_T<Eigen::Matrix<double, 1, 1>, N> t; };
template<int N> struct Kind<1, N> { typedef StateVar_T<Eigen::Matrix<double, 3, 1>, N, Auxiliary> t; };
template<int N> struct Kind<2, N> { typedef StateVar_T<Eigen::Quaterniond, N> t; };
template<int N> struct Kind<3, N> { typedef StateVar_T<Eigen::Quaterniond, N, AuxiliaryNonTemporalDrifting> t; };
template<int N> struct Kind<4, N> { typedef StateVar_T<Eigen::Matrix<double, 2, 1>, N, AuxiliaryNonTemporalDrifting> t; };
template<int N> struct Kind<5, N> { typedef StateVar_T<Eigen::Matrix<double, 1, 1>, N, Auxiliary, correctionMultiplicative> t; };
#define CORE StateVar_T<Eigen::Matrix<double, 3, 1>, p, CoreStateWithPropagation>, StateVar_T<Eigen::Matrix<double, 3, 1>, v, CoreStateWithPropagation>, StateVar_T<Eigen::Quaterniond, q, CoreStateWithPropagation>, StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, CoreStateWithoutPropagation>, StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, CoreStateWithoutPropagation>
template<int... K> struct List;
template<> struct List<> { typedef boost::fusion::vector<CORE> t; };
template<int A> struct List<A> { typedef boost::fusion::vector<CORE, typename Kind<A, x0>::t> t; };
template<int A, int B> struct List<A, B> { typedef boost::fusion::vector<CORE, typename Kind<A, x0>::t, typename Kind<B, x1>::t> t; };
template<int A, int B, int C> struct List<A, B, C> { typedef boost::fusion::vector<CORE, typename Kind<A, x0>::t, typename Kind<B, x1>::t, typename Kind<C, x2>::t> t; };
struct Blk { int s, n, e, m; bool quat, core, prop, drift, mult; };      // start and length in the state / error vector, meaning
static std::vector<Blk> blocks(const std::vector<int>& ks) {
  std::vector<Blk> r; int s = 0, e = 0;
  auto add = [&](int n, int m, bool quat, bool core, bool prop, bool nd, bool mu) { r.push_back({s, n, e, m, quat, core, prop, nd, mu}); s += n; e += m; };
  add(3, 3, 0, 1, 1, 0, 0); add(3, 3, 0, 1, 1, 0, 0); add(4, 3, 1, 1, 1, 0, 0); add(3, 3, 0, 1, 0, 0, 0); add(3, 3, 0, 1, 0, 0, 0);
  for (int k : ks) switch (k) { case 0: add(1, 1, 0, 0, 0, 0, 0); break; case 1: add(3, 3, 0, 0, 0, 0, 0); break; case 2: add(4, 3, 1, 0, 0, 0, 0); break; case 3: add(4, 3, 1, 0, 0, 1, 0); break; case 4: add(2, 2, 0, 0, 0, 1, 0); break; case 5: add(1, 1, 0, 0, 0, 0, 1); break; }
  return r;
}
static double val(int i) { return std::sin(1.3 * i + 0.4) + 0.05 * i; }
static void same(double a, double b, const char* key, const char* what, int i, int j = -1) { mc::check(); if (!(std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)))) mc::fail(key, mc::fmt("%s(%d,%d) is %.12g, expected %.12g", what, i, j, a, b)); mc::deviation(std::fabs(a - b)); }
template<class S> void flatten(S& s, std::vector<double>& out) { sensor_fusion_comm::DoubleArrayStamped m; s.ToFullStateMsg(m); out = m.data; }
struct Fill { const std::vector<double>& d; const std::vector<Blk>& b;   // writes values directly into the state variables
  template<int N, int NAME, int T, int O> void operator()(StateVar_T<Eigen::Matrix<double, N, 1>, NAME, T, O>& t) const { for (int i = 0; i < N; ++i) t.state_[i] = d[b[NAME].s + i]; }
  template<int NAME, int T, int O> void operator()(StateVar_T<Eigen::Quaterniond, NAME, T, O>& t) const { const double* x = &d[b[NAME].s]; t.state_ = Eigen::Quaterniond(x[0], x[1], x[2], x[3]); } };
struct Noise { const std::vector<Blk>& b; template<class T, int NAME, int ST, int O> void operator()(StateVar_T<T, NAME, ST, O>& t) const { for (int i = 0; i < t.Q.rows(); ++i) for (int j = 0; j < t.Q.cols(); ++j) t.Q(i, j) = 1000 * NAME + 10 * i + j + 1; } };
struct Each { const std::vector<Blk>& b; int& seen;        // Get / const access of every variable
  template<int N, int NAME, int T, int O> void operator()(StateVar_T<Eigen::Matrix<double, N, 1>, NAME, T, O>& t) const { ++seen; mc::check(); if (t.sizeInState_ != b[NAME].n || t.sizeInCorrection_ != b[NAME].m) mc::fail("state-size", mc::fmt("state %d has sizes %d %d", NAME, (int)t.sizeInState_, (int)t.sizeInCorrection_)); }
  template<int NAME, int T, int O> void operator()(StateVar_T<Eigen::Quaterniond, NAME, T, O>& t) const { ++seen; mc::check(); if (t.sizeInState_ != 4 || t.sizeInCorrection_ != 3) mc::fail("state-size", mc::fmt("quaternion %d has sizes %d %d", NAME, (int)t.sizeInState_, (int)t.sizeInCorrection_)); } };
static std::vector<double> values(const std::vector<Blk>& b, int salt) {
  std::vector<double> d(b.back().s + b.back().n); for (size_t i = 0; i < d.size(); ++i) d[i] = val((int)i + salt);
  for (auto& k : b) if (k.quat) { double n = 0; for (int i = 0; i < 4; ++i) n += d[k.s+i] * d[k.s+i]; for (int i = 0; i < 4; ++i) d[k.s+i] /= std::sqrt(n); }
  return d;
}
template<class L, class S, int I> void perState(const std::vector<Blk>& b, const std::vector<double>& d0) {
  const Blk& k = b[I]; mc::check();
  int is = msf_tmp::GetStateIndexInState<L, I>::value, ie = msf_tmp::GetStateIndexInErrorState<L, I>::value, ic = msf_tmp::GetStartIndexInCorrection<L, I>::value;
  if (is != k.s || ie != k.e || ic != k.e) mc::fail("start-index", mc::fmt("state %d starts at %d / %d / %d, expected %d / %d", I, is, ie, ic, k.s, k.e));
  S s; int ne = S::nErrorStatesAtCompileTime;
  for (int i = 0; i < ne; ++i) for (int j = 0; j < ne; ++j) s.P(i, j) = 100 * i + j + 1;
  boost::fusion::for_each(s.statevars, Fill{d0, b}); s.template ClearCrossCov<I>();
  for (int i = 0; i < ne; ++i) for (int j = 0; j < ne; ++j) { bool ri = i >= k.e && i < k.e + k.m, rj = j >= k.e && j < k.e + k.m; same(s.P(i, j), ri != rj ? 0 : 100 * i + j + 1, "cross-covariance", "P after clearing", i, j); }
  std::vector<double> f; flatten(s, f); for (size_t i = 0; i < f.size(); ++i) same(f[i], d0[i], "cross-covariance", "state after clearing", (int)i);
}
template<class L, class S, int N> struct Loop { static void run(const std::vector<Blk>& b, const std::vector<double>& d) { Loop<L, S, N - 1>::run(b, d); perState<L, S, N - 1>(b, d); } };
template<class L, class S> struct Loop<L, S, 0> { static void run(const std::vector<Blk>&, const std::vector<double>&) {} };
static Eigen::Quaterniond qmul(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { return Eigen::Quaterniond(a.w()*b.w() - a.x()*b.x() - a.y()*b.y() - a.z()*b.z(), a.w()*b.x() + a.x()*b.w() + a.y()*b.z() - a.z()*b.y(), a.w()*b.y() - a.x()*b.z() + a.y()*b.w() + a.z()*b.x(), a.w()*b.z() + a.x()*b.y() - a.y()*b.x() + a.z()*b.w()); }
template<int... K> void testList() {
  typedef typename List<K...>::t L; typedef GenericState_T<L, Def> S; const int NV = 5 + sizeof...(K);
  std::vector<int> ks = {K...}; std::vector<Blk> b = blocks(ks); int ns = b.back().s + b.back().n, ne = b.back().e + b.back().m;
  mc::require((int)S::nStateVarsAtCompileTime == NV && (int)S::nStatesAtCompileTime == ns && (int)S::nErrorStatesAtCompileTime == ne, "state-count", mc::fmt("%d variables, %d states, %d error states; expected %d, %d, %d", (int)S::nStateVarsAtCompileTime, (int)S::nStatesAtCompileTime, (int)S::nErrorStatesAtCompileTime, NV, ns, ne));
  mc::require((int)S::nCoreStatesAtCompileTime == 16 && (int)S::nCoreErrorStatesAtCompileTime == 15 && (int)S::nPropagatedCoreStatesAtCompileTime == 10 && (int)S::nPropagatedCoreErrorStatesAtCompileTime == 9, "core-count", "counts of core states are wrong");
  int best = msf_tmp::IndexOfBestNonTemporalDriftingState<L>::value; bool anyQ = false, any = false; for (auto& k : b) { any = any || k.drift; anyQ = anyQ || (k.drift && k.quat); }
  if (any ? best < 0 || best >= NV || !b[best].drift || (anyQ && !b[best].quat) : best != -1) mc::fail("drift-free-state", mc::fmt("drift-free state chosen: %d", best)); mc::check();
  auto P = boost::make_shared<S>(); S& s = *P; int seen = 0; boost::fusion::for_each(s.statevars, Each{b, seen}); mc::require(seen == NV, "state-count", "number of variables visited");
  std::vector<std::tuple<int, int, int>> idx; s.CalculateIndicesInErrorState(idx); mc::require((int)idx.size() == NV, "start-index", "number of index entries");
  for (int i = 0; i < NV; ++i) mc::require(std::get<0>(idx[i]) == i && std::get<1>(idx[i]) == b[i].e && std::get<2>(idx[i]) == b[i].m, "start-index", mc::fmt("index entry %d is (%d,%d,%d), expected (%d,%d,%d)", i, std::get<0>(idx[i]), std::get<1>(idx[i]), std::get<2>(idx[i]), i, b[i].e, b[i].m));
  std::vector<double> f; flatten(s, f); mc::require((int)f.size() == ns, "state-array", "length of the state array"); // a new state is reset
  for (auto& k : b) for (int i = 0; i < k.n; ++i) same(f[k.s + i], k.quat && i == 0, "reset", "state after construction", k.s + i);
  std::vector<double> d0 = values(b, 0); boost::fusion::for_each(s.statevars, Fill{d0, b}); flatten(s, f); for (int i = 0; i < ns; ++i) same(f[i], d0[i], "state-array", "full state", i);
  sensor_fusion_comm::DoubleArrayStamped core; s.ToCoreStateMsg(core); mc::require(core.data.size() == 16, "state-array", "length of the core state array"); auto ev = s.ToEigenVector(); for (int i = 0; i < 16; ++i) { same(core.data[i], d0[i], "state-array", "core state", i); same(ev[i], d0[i], "state-array", "core state vector", i); }
  for (int i = 0; i < ne; ++i) for (int j = 0; j < ne; ++j) s.P(i, j) = 100 * std::min(i, j) + std::max(i, j) + 1;      // symmetric, all blocks distinct
  sensor_fusion_comm::DoubleMatrixStamped c, a, x; s.GetCoreCovariance(c); s.GetAuxCovariance(a); s.GetCoreAuxCovariance(x); int na = ne - 15;
  mc::require((int)c.rows == 15 && (int)c.cols == 15 && c.data.size() == 225 && (int)a.rows == na && (int)a.cols == na && (int)a.data.size() == na * na && (int)x.rows == 15 && (int)x.cols == na && (int)x.data.size() == 15 * na, "covariance-layout", "dimensions of the covariance blocks");
  for (int i = 0; i < 15; ++i) for (int j = 0; j < 15; ++j) same(c.data[15 * i + j], s.P(i, j), "covariance-layout", "core covariance", i, j);
  for (int i = 0; i < na; ++i) for (int j = 0; j < na; ++j) same(a.data[na * i + j], s.P(15 + i, 15 + j), "covariance-layout", "aux covariance", i, j);
  for (int i = 0; i < 15; ++i) for (int j = 0; j < na; ++j) same(x.data[na * i + j], s.P(i, 15 + j), "covariance-layout", "core-aux covariance", i, j);
  geometry_msgs::PoseWithCovarianceStamped pm; s.ToPoseMsg(pm); int pi[6] = {0, 1, 2, 6, 7, 8}; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) same(pm.pose.covariance[6 * i + j], s.P(pi[i], pi[j]), "covariance-layout", "pose covariance", i, j);
  Eigen::Matrix<double, 6, 6> va; s.GetVelocityAttitudeCovariance(va); int vi[6] = {3, 4, 5, 6, 7, 8}; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) same(va(i, j), s.P(vi[i], vi[j]), "covariance-layout", "velocity-attitude covariance", i, j);
  // correction
  for (int salt = 0; salt < 3; ++salt) {
    S t; boost::fusion::for_each(t.statevars, Fill{d0, b}); Eigen::Matrix<double, S::nErrorStatesAtCompileTime, 1> d; for (int i = 0; i < ne; ++i) d[i] = salt == 2 ? 2.1 * val(3 * i) : 0.3 * val(7 * i + salt); t.Correct(d); flatten(t, f);
    for (auto& k : b) if (!k.quat) for (int i = 0; i < k.n; ++i) same(f[k.s + i], k.mult ? d0[k.s + i] * d[k.e + i] : d0[k.s + i] + d[k.e + i], "correction", "corrected state", k.s + i);
      else { Eigen::Vector3d th(d[k.e], d[k.e + 1], d[k.e + 2]); double n2 = th.squaredNorm() / 4; Eigen::Quaterniond e = n2 < 1 ? Eigen::Quaterniond(std::sqrt(1 - n2), th[0] / 2, th[1] / 2, th[2] / 2) : Eigen::Quaterniond(1 / std::sqrt(1 + n2), th[0] / 2 / std::sqrt(1 + n2), th[1] / 2 / std::sqrt(1 + n2), th[2] / 2 / std::sqrt(1 + n2)); Eigen::Quaterniond r = qmul(Eigen::Quaterniond(d0[k.s], d0[k.s+1], d0[k.s+2], d0[k.s+3]), e); double w[4] = {r.w(), r.x(), r.y(), r.z()}; for (int i = 0; i < 4; ++i) same(f[k.s + i], w[i], "correction", "corrected attitude", k.s + i); }
  }
  // process noise blocks
  { boost::fusion::for_each(s.statevars, Noise{b}); typename S::Q_type Q; for (int i = 0; i < ne; ++i) for (int j = 0; j < ne; ++j) Q(i, j) = -(100 * i + j + 1);
    boost::fusion::for_each(s.statevars, msf_tmp::CopyQBlocksFromAuxiliaryStatesToQ<L>(Q));
    for (int i = 0; i < ne; ++i) for (int j = 0; j < ne; ++j) { double want = -(100 * i + j + 1); for (size_t m = 0; m < b.size(); ++m) { auto& k = b[m]; if (!k.core && i >= k.e && i < k.e + k.m && j >= k.e && j < k.e + k.m) want = 1000.0 * m + 10 * (i - k.e) + (j - k.e) + 1; } same(Q(i, j), want, "noise-block", "process noise", i, j); } }
  // states without propagation are carried over, the others not
  { S t; std::vector<double> d1 = values(b, 17); boost::fusion::for_each(t.statevars, Fill{d1, b}); boost::fusion::for_each(t.statevars, msf_tmp::CopyNonPropagationStates<S>(s)); flatten(t, f); for (auto& k : b) for (int i = 0; i < k.n; ++i) same(f[k.s + i], k.prop ? d1[k.s + i] : d0[k.s + i], "carry-over", "state after carrying over", k.s + i); }
  // finiteness
  mc::require(s.CheckStateForNumeric(), "finiteness", "a finite state is reported as not finite");
  for (int i = 0; i < 16; ++i) for (double bad : {(double)NAN, (double)INFINITY, -(double)INFINITY}) { S t; std::vector<double> d1 = d0; d1[i] = bad; boost::fusion::for_each(t.statevars, Fill{d1, b}); mc::require(!t.CheckStateForNumeric(), "finiteness", mc::fmt("a non-finite entry at %d is not reported", i)); }
  Loop<L, S, NV>::run(b, d0);
  s.Reset(); flatten(s, f); for (auto& k : b) for (int i = 0; i < k.n; ++i) same(f[k.s + i], k.quat && i == 0, "reset", "state after reset", k.s + i);
  for (int i = 0; i < ne; ++i) for (int j = 0; j < ne; ++j) same(s.P(i, j), 0, "reset", "covariance after reset", i, j);
  uint64_t h = 1; for (int k : ks) h = mc::mix(h, k); mc::outcome(h);
}
// table of all compiled lists
typedef void (*Fn)(); static std::vector<std::pair<std::string, Fn>> g_lists;
template<int... K> void reg() { std::string n; for (int k : std::vector<int>{K...}) n += mc::fmt(" %d", k); g_lists.push_back({n, &testList<K...>}); }
template<int A, int B> void reg3() {
#if defined(DEEP)
  reg<A, B, 0>(); reg<A, B, 1>(); reg<A, B, 2>(); reg<A, B, 3>(); reg<A, B, 4>(); reg<A, B, 5>();
#else
  reg<A, B, (A + 2 * B + 1) % 6>();
#endif
}
template<int A> void reg2() { reg<A>(); reg<A, 0>(); reg<A, 1>(); reg<A, 2>(); reg<A, 3>(); reg<A, 4>(); reg<A, 5>(); reg3<A, 0>(); reg3<A, 1>(); reg3<A, 2>(); reg3<A, 3>(); reg3<A, 4>(); reg3<A, 5>(); }
int main(int argc, char** argv) {
  if (FIRST == 6) reg<>(); else reg2<FIRST % 6>();
  std::vector<mc::Scenario> L; mc::Scenario s; s.name = "c25_lists"; s.sharddepth = 1; s.timeout_s = 60;
  s.fn = [] { int i = mc::choose((int)g_lists.size()); mc::note("auxiliary kinds:%s", g_lists[i].first.c_str()); mc::transition(); mc::state(mc::mix(FIRST, i)); g_lists[i].second(); };
  L.push_back(s); return mc::mainLoop(argc, argv, L);
}
