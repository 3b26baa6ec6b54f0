// Independent reference of what the filter is documented to compute: an error-state EKF over IMU-driven strapdown
// kinematics (Weiss & Siegwart, ICRA 2011), written for clarity with run-time state layouts and
// numerically differentiated sensor models.  Shares no code with the repository.
#ifndef REF_HPP
#define REF_HPP
#include <Eigen/Dense>
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace ref {
typedef double R;
typedef Eigen::Matrix<R, Eigen::Dynamic, 1> V;
typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> M;
typedef Eigen::Matrix<R, 3, 1> V3;
typedef Eigen::Matrix<R, 4, 1> V4;   // quaternion w x y z
typedef Eigen::Matrix<R, 3, 3> M3;
static const R PI = std::acos(-1.0L);
static const R GRAV = 9.80834L;      // propagation gravity, world z up

inline V4 qmul(const V4& a, const V4& b) {
  V4 r; r << a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
             a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]; return r;
}
inline V4 qconj(const V4& a) { V4 r; r << a[0], -a[1], -a[2], -a[3]; return r; }
inline V4 qnorm(const V4& a) { return a / std::sqrt(a.squaredNorm()); }
inline M3 rot(const V4& q) {
  R w=q[0],x=q[1],y=q[2],z=q[3]; M3 m;
  m << 1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y), 2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x), 2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y);
  return m;
}
inline M3 skew(const V3& v) { M3 m; m << 0,-v[2],v[1], v[2],0,-v[0], -v[1],v[0],0; return m; }
inline V4 small(const V3& d) {       // small rotation vector to unit quaternion
  R s = d.squaredNorm() / 4; V4 q;
  if (s < 1) q << std::sqrt(1 - s), d[0]/2, d[1]/2, d[2]/2;
  else { R w = 1 / std::sqrt(1 + s); q << w, w*d[0]/2, w*d[1]/2, w*d[2]/2; }
  return q;
}
inline V4 expq(const V3& d) {        // exact exponential
  R n = std::sqrt(d.squaredNorm()); V4 q; R f = n < 1e-9L ? 0.5L - n*n/48 : std::sin(n/2)/n; q << std::cos(n/2), f*d[0], f*d[1], f*d[2]; return q;
}
inline V4 q4(R w, R x, R y, R z) { V4 q; q << w, x, y, z; return q; }
inline V3 v3(R x, R y, R z) { return V3(x, y, z); }

struct Var { std::string name; bool quat; int n, e, s, eo; };   // state size, error size, state offset, error offset
struct Sys {
  std::vector<Var> vars; int ns = 0, ne = 0; std::string kind;
  void add(const std::string& nm, int n, bool quat = false) { int e = quat ? 3 : n; vars.push_back({nm, quat, n, e, ns, ne}); ns += n; ne += e; }
  const Var* find(const std::string& nm) const { for (auto& v : vars) if (v.name == nm) return &v; return nullptr; }
  const Var& at(const std::string& nm) const { const Var* v = find(nm); if (!v) { fprintf(stderr, "ref: no state %s\n", nm.c_str()); abort(); } return *v; }
  V zero() const { V x = V::Zero(ns); for (auto& v : vars) if (v.quat) x[v.s] = 1; return x; }
  V3 g3(const V& x, const char* nm) const { return x.segment(at(nm).s, 3); }
  V4 g4(const V& x, const char* nm) const { return x.segment(at(nm).s, 4); }
  V boxplus(const V& x, const V& d) const {
    V y = x;
    for (auto& v : vars) { if (v.quat) y.segment(v.s, 4) = qnorm(qmul(x.segment(v.s, 4), small(d.segment(v.eo, 3)))); else y.segment(v.s, v.n) += d.segment(v.eo, v.n); }
    return y;
  }
};
inline Sys makeSys(const std::string& kind) {
  Sys s; s.kind = kind;
  s.add("p", 3); s.add("v", 3); s.add("q", 4, true); s.add("b_w", 3); s.add("b_a", 3);
  if (kind == "pose" || kind == "position_pose" || kind == "pose_pressure") { s.add("L", 1); s.add("q_wv", 4, true); s.add("p_wv", 3); s.add("q_ic", 4, true); s.add("p_ic", 3); }
  if (kind == "position" || kind == "position_pose" || kind == "spherical") s.add("p_ip", 3);
  if (kind == "pose_pressure") s.add("b_p", 1);
  return s;
}
struct Noise { R acc = 0.002L, accbias = 5e-8L, gyr = 0.0004L, gyrbias = 3e-6L; bool fixed_bias = false; std::map<std::string, R> aux; };

// Initial error covariance of the core states (documented simulation result).
inline M P0(const Sys& s) {
  static const double T[15][15] = {
   {0.0166,0.0122,-0.0015,0.0211,0.0074,0.0000,0.0012,-0.0012,0.0001,0,0,0,-0.0003,-0.0002,0},
   {0.0129,0.0508,-0.0020,0.0179,0.0432,0.0006,0.0020,0.0004,-0.0002,0,0,0,0.0003,-0.0002,0},
   {-0.0013,-0.0009,0.0142,-0.0027,0.0057,0.0079,0.0007,0.0007,0,0,0,0,-0.0001,-0.0004,-0.0001},
   {0.0210,0.0162,-0.0026,0.0437,0.0083,-0.0017,0.0016,-0.0021,-0.0014,0,0,0,0.0003,-0.0001,0},
   {0.0093,0.0461,0.0036,0.0153,0.0650,-0.0016,0.0025,0.0013,0,0,0,0,0.0003,0.0002,0},
   {0,0.0005,0.0080,-0.0019,-0.0021,0.0130,0.0001,0.0001,0,0,0,0,-0.0003,0.0001,-0.0001},
   {0.0012,0.0024,0.0006,0.0017,0.0037,0.0001,0.0005,0,0.0001,0,0,0,0,-0.0001,0},
   {-0.0011,0.0008,0.0007,-0.0023,0.0019,0.0001,0,0.0005,-0.0001,0,0,0,0.0001,-0.0001,0},
   {0.0001,-0.0002,0,-0.0014,0.0001,0,0,-0.0001,0.0006,0,0,0,0,0,0},
   {0},{0},{0},
   {-0.0003,0.0003,-0.0001,0.0003,0.0003,-0.0003,0,0.0001,0,0,0,0,0.0010,0,0},
   {-0.0002,-0.0002,-0.0004,-0.0001,0.0003,0.0001,-0.0001,0,0,0,0,0,0,0.0010,0},
   {0,0,-0.0001,0,0,-0.0001,0,0,0,0,0,0,0,0,0.0001}};
  M P = M::Identity(s.ne, s.ne) * (R)0.0001;
  for (int i = 0; i < 15; ++i) for (int j = 0; j < 15; ++j) P(i, j) = ((R)T[i][j] + (R)T[j][i]) / 2;
  return P;
}

// State prediction: trapezoidal position and velocity, attitude by the documented truncated exponential.
inline V propagate(const Sys& s, const V& x, R dt, const V3& a0, const V3& w0, const V3& a1, const V3& w1) {
  V y = x;
  V3 bw = s.g3(x, "b_w"), ba = s.g3(x, "b_a");
  V3 W1 = w1 - bw, W0 = w0 - bw, A1 = a1 - ba, A0 = a0 - ba;
  V4 q0 = s.g4(x, "q");
  V3 h = (W1 + W0) / 2 * dt / 2;     // half angle vector
  R n2 = h.squaredNorm();
  // exp of the pure quaternion h, first four powers; commutator of the two rates: quaternion (0, w1 x w0)/24 dt^2
  R c = 1 - n2/2 + n2*n2/24, f = 1 - n2/6;
  V3 com = W0.cross(W1) * (dt*dt/24);
  V4 dq; dq << c, f*h + com;
  V4 q1 = qnorm(qmul(q0, dq));
  V3 dv = (rot(q1) * A1 + rot(q0) * A0) / 2;
  V3 v0 = s.g3(x, "v"), v1 = v0 + (dv - v3(0, 0, GRAV)) * dt;
  y.segment(s.at("p").s, 3) = s.g3(x, "p") + (v0 + v1) / 2 * dt;
  y.segment(s.at("v").s, 3) = v1;
  y.segment(s.at("q").s, 4) = q1;
  return y;
}
// Error state transition over dt, truncated series of the paper; C attitude at the new time, W, A bias-corrected readings there.
inline M transition(const Sys& s, R t, const M3& C, const V3& W, const V3& A) {
  M F = M::Identity(s.ne, s.ne);
  const M3 I = M3::Identity(), w = skew(W), Ca = C * skew(A);
  const R t2 = t*t/2, t3 = t2*t/3, t4 = t3*t/4, t5 = t4*t/5;
  const M3 w2 = w * w;
  const M3 a = Ca * (-t2*I + t3*w - t4*w2), b = Ca * (t3*I - t4*w + t5*w2), e = I - t*w + t2*w2, f = -t*I + t2*w - t3*w2;
  const int p = s.at("p").eo, v = s.at("v").eo, q = s.at("q").eo, bw = s.at("b_w").eo, ba = s.at("b_a").eo;
  F.block<3,3>(p, v) = t*I; F.block<3,3>(p, q) = a; F.block<3,3>(p, bw) = b; F.block<3,3>(p, ba) = -C*t2;
  F.block<3,3>(v, q) = Ca*f; F.block<3,3>(v, bw) = -a; F.block<3,3>(v, ba) = -C*t;
  F.block<3,3>(q, q) = e; F.block<3,3>(q, bw) = f;
  return F;
}
// Process noise: integral of F(tau) G Qc G' F(tau)' (Gauss-Legendre, exact for these polynomials) plus random walks.
inline M processNoise(const Sys& s, R dt, const M3& C, const V3& W, const V3& A, const Noise& n) {
  static const R X[6] = {-0.932469514203152027812301554493994609L, -0.661209386466264513661399595019905347L, -0.238619186083196908630501721680711935L, 0.238619186083196908630501721680711935L, 0.661209386466264513661399595019905347L, 0.932469514203152027812301554493994609L};
  static const R Wt[6] = {0.171324492379170345040296142172732894L, 0.360761573048138607569833513837716112L, 0.467913934572691047389870343989550995L, 0.467913934572691047389870343989550995L, 0.360761573048138607569833513837716112L, 0.171324492379170345040296142172732894L};
  const int p = s.at("p").eo, v = s.at("v").eo, q = s.at("q").eo, bw = s.at("b_w").eo, ba = s.at("b_a").eo;
  typedef Eigen::Matrix<R, 15, 15> M15; (void)p;
  M15 Q = M15::Zero(), GQ = M15::Zero();
  for (int i = 0; i < 3; ++i) { GQ(v+i, v+i) = n.acc*n.acc; GQ(q+i, q+i) = n.gyr*n.gyr; GQ(bw+i, bw+i) = n.gyrbias*n.gyrbias; GQ(ba+i, ba+i) = n.accbias*n.accbias; }
  Sys core; core.add("p", 3); core.add("v", 3); core.add("q", 4, true); core.add("b_w", 3); core.add("b_a", 3);
  for (int k = 0; k < 6; ++k) { M15 F = transition(core, dt * (1 + X[k]) / 2, C, W, A); Q += F * GQ * F.transpose() * (Wt[k] * dt / 2); }
  M r = M::Zero(s.ne, s.ne); r.block<15,15>(0, 0) = Q;
  for (auto& a : n.aux) { const Var* x = s.find(a.first); if (x) for (int i = 0; i < x->e; ++i) r(x->eo+i, x->eo+i) += dt * a.second * a.second; }
  return r;
}
inline M fpft(const M& F, const M& P) {   // F P F' with F = identity outside the first 15 columns/rows
  M FP = P; FP.topRows(15) = F.topLeftCorner(15, 15) * P.topRows(15);
  M r = FP; r.leftCols(15) = FP.leftCols(15) * F.topLeftCorner(15, 15).transpose();
  return r;
}

enum Kind { POSE, POSITION, PRESSURE, ANGLE, DISTANCE };
struct Meas {
  Kind kind; double t; V3 zp = V3::Zero(); V4 zq = q4(1, 0, 0, 0); R z0 = 0, z1 = 0;
  M Rm; std::set<std::string> fixed; bool gate = false; R thr = 100; bool relative = false; int sensor = 0; int id = 0;
  int rows() const { return kind == POSE ? 6 : kind == POSITION ? 3 : kind == ANGLE ? 2 : 1; }
};
// Documented sensor models.
inline void poseModel(const Sys& s, const V& x, V3& p, V4& q) {
  p = rot(s.g4(x, "q_wv")) * (s.g3(x, "p") + rot(s.g4(x, "q")) * s.g3(x, "p_ic") - s.g3(x, "p_wv")) * x[s.at("L").s];
  q = qmul(qmul(s.g4(x, "q_wv"), s.g4(x, "q")), s.g4(x, "q_ic"));
}
inline V3 prism(const Sys& s, const V& x) { return s.g3(x, "p") + rot(s.g4(x, "q")) * s.g3(x, "p_ip"); }
inline V vecModel(const Sys& s, const Meas& m, const V& x) {
  if (m.kind == POSITION) return prism(s, x);
  V z(m.rows());
  if (m.kind == PRESSURE) { z[0] = x[s.at("p").s + 2] - x[s.at("b_p").s]; return z; }
  V3 p = prism(s, x); R rho = std::sqrt(p.squaredNorm());
  if (m.kind == DISTANCE) z[0] = rho; else { z[0] = std::acos(p[2] / rho); z[1] = std::atan2(p[1], p[0]); }
  return z;
}
inline R wrap(R a) { while (a > PI) a -= 2*PI; while (a < -PI) a += 2*PI; return a; }
inline V attErr(const V4& h, const V4& z) { V4 e = qmul(qconj(h), z); return V3(2*e[1]/e[0], 2*e[2]/e[0], 2*e[3]/e[0]); }
inline V residual(const Sys& s, const Meas& m, const V& x) {
  if (m.kind == POSE) { V r(6); V3 p; V4 q; poseModel(s, x, p, q); r << m.zp - p, attErr(q, m.zq); return r; }
  V h = vecModel(s, m, x);
  if (m.kind == POSITION) return m.zp - h;
  V z(m.rows()); z[0] = m.z0; if (m.kind == ANGLE) z[1] = m.z1;
  V r = z - h; if (m.kind == ANGLE) r[1] = wrap(r[1]);
  return r;
}
inline M sensitivity(const Sys& s, const Meas& m, const V& x) {   // derivative of the model, fourth order stencil
  const R h = m.kind == ANGLE ? 2e-4L : 1e-3L; M H(m.rows(), s.ne);
  V3 p0; V4 q0; if (m.kind == POSE) poseModel(s, x, p0, q0);
  V h0; if (m.kind != POSE) h0 = vecModel(s, m, x);
  auto f = [&](int i, R e) -> V {
    V d = V::Zero(s.ne); d[i] = e; V y = s.boxplus(x, d);
    if (m.kind == POSE) { V3 p; V4 q; poseModel(s, y, p, q); V r(6); r << p - p0, attErr(q0, q); return r; }
    V r = vecModel(s, m, y) - h0; if (m.kind == ANGLE) r[1] = wrap(r[1]); return r;
  };
  for (auto& v : s.vars) for (int k = 0; k < v.e; ++k) {
    int i = v.eo + k;
    if (m.fixed.count(v.name)) { H.col(i).setZero(); continue; }
    H.col(i) = (8 * (f(i, h) - f(i, -h)) - (f(i, 2*h) - f(i, -2*h))) / (12 * h);
  }
  return H;
}
inline void clearCross(const Sys& s, M& P, const std::set<std::string>& fixed) {
  for (auto& nm : fixed) { const Var* v = s.find(nm); if (!v) continue; M b = P.block(v->eo, v->eo, v->e, v->e); P.middleRows(v->eo, v->e).setZero(); P.middleCols(v->eo, v->e).setZero(); P.block(v->eo, v->eo, v->e, v->e) = b; }
}
inline V applyCorrection(const Sys& s, const V& x, V d, bool fixed_bias) {
  if (fixed_bias) { d.segment(s.at("b_w").eo, 3).setZero(); d.segment(s.at("b_a").eo, 3).setZero(); }
  V y = s.boxplus(x, d);
  if (auto l = s.find("L")) if (y[l->s] < 0) y[l->s] = (R)0.1;
  return y;
}
struct UpdInfo { bool applied = false; R mah = 0; V r; M H, K; };
// Textbook Kalman update (Joseph form).
inline UpdInfo update(const Sys& s, const Meas& m, V& x, M& P, bool fixed_bias) {
  UpdInfo u; clearCross(s, P, m.fixed);
  u.H = sensitivity(s, m, x); u.r = residual(s, m, x);
  M S = u.H * P * u.H.transpose() + m.Rm; M Si = S.inverse();
  u.mah = std::sqrt(u.r.dot(Si * u.r));
  if (m.gate && u.mah > m.thr) return u;
  u.K = P * u.H.transpose() * Si;
  M A = M::Identity(s.ne, s.ne) - u.K * u.H;
  P = A * P * A.transpose() + u.K * m.Rm * u.K.transpose();
  P = ((P + P.transpose()) / 2).eval();
  x = applyCorrection(s, x, u.K * u.r, fixed_bias);
  u.applied = true; return u;
}
// Relative pose reading: the difference between two readings constrains the two states (stochastic cloning).
inline UpdInfo updateRelative(const Sys& s, const Meas& m, const Meas& prev, const V& xo, M& Po, V& x, M& P, const M& F, bool fixed_bias) {
  UpdInfo u; clearCross(s, Po, m.fixed); clearCross(s, P, m.fixed);
  V3 po, pn; V4 qo, qn; poseModel(s, xo, po, qo); poseModel(s, x, pn, qn);
  V4 dq = qmul(qconj(qo), qn), dz = qmul(qconj(prev.zq), m.zq);
  u.r.resize(6); u.r << (m.zp - prev.zp) - (pn - po), attErr(dq, dz);
  M Ho = sensitivity(s, m, xo), Hn = sensitivity(s, m, x);
  M J = M::Zero(6, 2 * s.ne);
  J.block(0, 0, 3, s.ne) = -Ho.topRows(3); J.block(3, 0, 3, s.ne) = -rot(qconj(dq)) * Ho.bottomRows(3); J.rightCols(s.ne) = Hn;
  M B(2 * s.ne, 2 * s.ne); B << Po, Po * F.transpose(), F * Po, P;
  M S = J * B * J.transpose() + m.Rm;
  M K = (B * J.transpose() * S.inverse()).bottomRows(s.ne);
  P = P - K * S * K.transpose(); P = ((P + P.transpose()) / 2).eval();
  x = applyCorrection(s, x, K * u.r, fixed_bias);
  u.K = K; u.applied = true; return u;
}

// Event-driven reference node.  State times are the IMU times plus the measurement times that are more than a
// millisecond away from every state; everything after the earliest new item is recomputed in time order.
struct Node { double t; V3 a, w; V x; M P; V xm; M Pm; bool external = false; V xe; M F; };   // posterior, prediction, transition to the next node
struct Ev { char k; double t; V3 a, w; V x; M P; Meas m; bool adopt = false; Noise n; };   // one delivered item
struct RefNode {
  std::vector<Ev> log;
  Sys s; Noise n; bool inited = false, predicted = false;
  std::map<double, Node> st; std::map<double, Meas> ms; std::deque<Meas> queue;
  std::map<double, double> where;       // measurement -> state it is applied to
  int applied = 0, rejected = 0, updates = 0; bool pubProp = false, pubUpd = false; V propX; M propP; double propT = 0;
  double maxdt = 0, maxwdt = 0; std::string why;                 // why the last item had no effect
  explicit RefNode(const std::string& kind = "pose") : s(makeSys(kind)) {}
  void init(double t, const V& x, const M& P, const V3& a, const V3& w) {
    { Ev e; e.k = 'I'; e.t = t; e.x = x; e.P = P; e.a = a; e.w = w; rec(e); }
    st.clear(); ms.clear(); queue.clear(); where.clear(); hist.clear(); next = 0; inited = true; predicted = false; maxdt = maxwdt = 0;
    Node k; k.t = t; k.x = k.xm = x; k.P = k.Pm = P; k.a = a; k.w = w; st[t] = k; pubProp = pubUpd = false;
  }
  const Node& latest() const { return st.rbegin()->second; }
  void begin() { pubProp = pubUpd = false; why.clear(); }
  void predict(const Node& o, Node& k) {
    k.xm = k.external ? k.xe : propagate(s, o.x, (R)k.t - (R)o.t, o.a, o.w, k.a, k.w);
    if (k.external) for (auto& v : s.vars) if (v.name != "p" && v.name != "v" && v.name != "q") k.xm.segment(v.s, v.n) = o.x.segment(v.s, v.n);
    V3 W = k.w - s.g3(k.xm, "b_w"), A = k.a - s.g3(k.xm, "b_a"); M3 C = rot(s.g4(k.xm, "q")); R dt = (R)k.t - (R)o.t;
    maxdt = std::max(maxdt, k.t - o.t); maxwdt = std::max(maxwdt, std::sqrt(W.squaredNorm()) * (k.t - o.t));
    const_cast<Node&>(o).F = transition(s, dt, C, W, A);
    k.Pm = fpft(o.F, o.P) + processNoise(s, dt, C, W, A, n);
    k.x = k.xm; k.P = k.Pm;
  }
  void rec(Ev& e) { e.n = n; log.push_back(e); }
  // Feeds logged items into this node (noise settings as they were).
  void feed(const Ev& e) {
    n = e.n;
    if (e.k == 'I') init(e.t, e.x, e.P, e.a, e.w); else if (e.k == 'U') imu(e.t, e.a, e.w); else if (e.k == 'M') meas(e.m);
    else external(e.t, e.a, e.w, e.x.segment(0, 3), e.x.segment(3, 3), e.x.segment(6, 4), e.adopt);
  }
  void imu(double t, V3 a, V3 w) {
    { Ev e; e.k = 'U'; e.t = t; e.a = a; e.w = w; rec(e); }
    begin(); if (!inited) { why = "uninitialized"; return; }
    Node& l = st.rbegin()->second;
    if (predicted || st.size() > 1) { if (t - l.t < -0.01) { inited = predicted = false; why = "reset"; return; } if (t <= l.t) { why = "not newer"; return; } }
    if (std::sqrt(a.squaredNorm()) > 50) a = l.a;
    if (!predicted && (fabs(t - l.t) > 0.1 || t <= l.t)) { Node k = l; st.erase(k.t); k.t = t; st[t] = k; why = "gap"; return; }
    Node k; k.t = t; k.a = a; k.w = w; predict(l, k); st[t] = k; propX = k.x; propP = k.P; propT = t; pubProp = true;
    if (st.size() > 3) predicted = true;
    if (predicted) popQueue();
  }
  void external(double t, V3 a, V3 w, const V3& p, const V3& v, const V4& q, bool adopt) {
    { Ev e; e.k = 'X'; e.t = t; e.a = a; e.w = w; e.x.resize(10); e.x << p, v, q; e.adopt = adopt; rec(e); }
    begin(); if (!inited) { why = "uninitialized"; return; }
    Node& l = st.rbegin()->second;
    if (predicted) { if (t - l.t < -0.01) { inited = predicted = false; why = "reset"; return; } if (t <= l.t) { why = "not newer"; return; } }
    if (std::sqrt(a.squaredNorm()) > 50) a = l.a;
    if (!predicted && fabs(t - l.t) > 5) { Node k = l; st.erase(k.t); k.t = t; st[t] = k; why = "gap"; return; }
    Node k; k.t = t; k.a = a; k.w = w; k.external = adopt;
    if (adopt) { k.xe = l.x; k.xe.segment(s.at("p").s, 3) = p; k.xe.segment(s.at("v").s, 3) = v; k.xe.segment(s.at("q").s, 4) = qnorm(q); }
    predict(l, k);
    if (!predicted) { k.P = k.Pm = l.P; st.clear(); ms.clear(); where.clear(); queue.clear(); }
    st[t] = k; propX = k.x; propP = k.P; propT = t; pubProp = true; predicted = true; popQueue();
  }
  void popQueue() { if (queue.empty()) return; Meas m = queue.front(); queue.pop_front(); take(m); }
  void meas(const Meas& m) { { Ev e; e.k = 'M'; e.t = m.t; e.m = m; rec(e); } begin(); take(m); }
  double closest(double t) const {
    auto hi = st.lower_bound(t); if (hi == st.end()) return st.rbegin()->first; if (hi == st.begin()) return hi->first;
    auto lo = hi; --lo; return t - lo->first <= hi->first - t ? lo->first : hi->first;
  }
  void take(const Meas& m) {
    if (!inited || !predicted) { why = "not running"; return; }
    if (m.t > latest().t) { queue.push_back(m); why = "queued"; return; }
    if (m.t < st.begin()->first) { why = "too old"; return; }
    double c = closest(m.t);
    if (!(fabs(c - m.t) <= 0.1)) { why = "no state near"; return; }
    if (ms.count(m.t)) { why = "duplicate"; return; }
    ms[m.t] = m;
    if (fabs(c - m.t) > 0.001) {
      auto hi = st.upper_bound(m.t); auto lo = hi; --lo;
      Node k; k.t = m.t; R f = ((R)m.t - lo->first) / ((R)hi->first - lo->first);
      k.a = lo->second.a + (hi->second.a - lo->second.a) * f; k.w = lo->second.w + (hi->second.w - lo->second.w) * f;
      st[m.t] = k; c = m.t;
    }
    for (auto it = ms.lower_bound(m.t); it != ms.end(); ++it) where[it->first] = closest(it->first);
    recompute(c); pubUpd = true;
  }
  void recompute(double from) {
    auto it = st.find(from);
    for (; it != st.end(); ++it) {
      Node& k = it->second;
      if (it->first != from) k.external = false;     // later states follow from the corrected one and the IMU readings
      if (it->first == from && k.Pm.size()) { k.x = k.xm; k.P = k.Pm; }     // its prediction stands
      else if (it != st.begin()) { auto o = it; --o; predict(o->second, k); }
      else { k.x = k.xm; k.P = k.Pm; }
      for (auto& e : ms) if (where[e.first] == it->first) applyMeas(e.second, k);
    }
  }
  void applyMeas(const Meas& m, Node& k) {
    ++updates;
    V before = k.x; struct W { RefNode& r; V& b; Node& k; int a; ~W() { if (r.applied > a) r.watch(b, k.x); } } w{*this, before, k, applied};
    if (!m.relative) { UpdInfo u = update(s, m, k.x, k.P, n.fixed_bias); (u.applied ? applied : rejected)++; lastUpd[m.id] = u.applied; lastMah[m.id] = u.mah; return; }
    auto it = ms.find(m.t); const Meas* prev = nullptr;
    while (it != ms.begin()) { --it; if (it->second.sensor == m.sensor) { prev = &it->second; break; } }
    if (!prev) return;
    double c = where.count(prev->t) ? where[prev->t] : closest(prev->t);
    auto so = st.find(c); M F = M::Identity(s.ne, s.ne);
    for (auto q = so; q->first < k.t; ++q) { auto nx = q; ++nx; M f = q->second.F; F = f * F; }
    M Po = so->second.P; updateRelative(s, m, *prev, so->second.x, Po, k.x, k.P, F, n.fixed_bias); applied++;
  }
  // Fuzzy-tracking watchdog: median of the last 30 values of the drift-free state (one per applied correction).
  bool watchdog = false, ambiguous = false; std::vector<V4> hist; size_t next = 0; int triggered = 0; double dist = 0; bool lastFuzzy = false;
  void watch(const V& before, V& x) {
    lastFuzzy = false; if (!watchdog || !s.find("q_wv")) return;
    V4 q = s.g4(x, "q_wv"); if (hist.size() < 30) { hist.push_back(q); return; }
    V4 lo, hi; for (int c = 0; c < 4; ++c) { std::vector<R> v; for (auto& h : hist) v.push_back(h[c]); std::sort(v.begin(), v.end()); lo[c] = v[14]; hi[c] = v[15]; }
    auto d = [&](const V4& med) -> R { V4 e = qmul(qconj(q), med); return 2 * std::max(std::fabs(e[1]), std::max(std::fabs(e[2]), std::fabs(e[3]))) / std::fabs(e[0]); };
    R a = d(lo), b = d(hi); dist = b; ambiguous = ambiguous || (a > 0.1) != (b > 0.1) || std::fabs(b - 0.1) < 1e-5 || std::fabs(a - 0.1) < 1e-5;
    if (b > 0.1) { ++triggered; lastFuzzy = true; for (auto& v : s.vars) if (v.name != "p" && v.name != "v" && v.name != "q") x.segment(v.s, v.n) = before.segment(v.s, v.n); }
    else { hist[next] = q; next = (next + 1) % 30; }
  }
  std::map<int, bool> lastUpd; std::map<int, R> lastMah;
};
}
#endif
