// One running fusion node (the repository's real sensor manager behind stand-in ROS headers) driven in lock-step with
// the independent reference of ref.hpp.  The harness only uses what a user has: parameters, topics, services.
// Select the node with -DMGR_POSE, -DMGR_POSITION, -DMGR_POSITION_POSE, -DMGR_POSE_PRESSURE or -DMGR_SPHERICAL.
#ifndef NODE_HPP
#define NODE_HPP
#include <ros/ros.h>
#include "manager.hpp"
#include <dynamic_reconfigure/server.h>
#include <msf_core/MSF_CoreConfig.h>
#if defined(MGR_POSE)
#include <msf_updates/SinglePoseSensorConfig.h>
typedef msf_updates::SinglePoseSensorConfig Cfg; static const char* const KIND = "pose"; static const char* const CFGNS = "/node/pose_sensor";
#elif defined(MGR_POSITION)
#include <msf_updates/SinglePositionSensorConfig.h>
typedef msf_updates::SinglePositionSensorConfig Cfg; static const char* const KIND = "position"; static const char* const CFGNS = "/node/position_sensor";
#elif defined(MGR_POSITION_POSE)
#include <msf_updates/PositionPoseSensorConfig.h>
typedef msf_updates::PositionPoseSensorConfig Cfg; static const char* const KIND = "position_pose"; static const char* const CFGNS = "/node/position_pose_sensor";
#elif defined(MGR_POSE_PRESSURE)
#include <msf_updates/PosePressureSensorConfig.h>
typedef msf_updates::PosePressureSensorConfig Cfg; static const char* const KIND = "pose_pressure"; static const char* const CFGNS = "/node/pose_pressure_sensor";
#elif defined(MGR_SPHERICAL)
#include <msf_updates/SphericalPositionSensorConfig.h>
typedef msf_updates::SphericalPositionSensorConfig Cfg; static const char* const KIND = "spherical"; static const char* const CFGNS = "/node/spherical_position_sensor";
#endif
#include <memory>
#include <sensor_msgs/Imu.h>
#include <sensor_msgs/NavSatFix.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <sensor_fusion_comm/ExtEkf.h>
#include <sensor_fusion_comm/ExtState.h>
#include <sensor_fusion_comm/DoubleArrayStamped.h>
#include <sensor_fusion_comm/DoubleMatrixStamped.h>
#include <sensor_fusion_comm/InitScale.h>
#include <sensor_fusion_comm/InitHeight.h>
#include "mc.hpp"
#include "ref.hpp"
extern "C" int usleep(useconds_t) { return 0; }      // the node sleeps 0.11 s in every initialization
struct Quiet { std::ostringstream o; Quiet() { struct N : std::streambuf { int overflow(int c) override { return c; } }; static N n; std::cout.rdbuf(&n); } };
static Quiet g_quiet;
typedef Eigen::Vector3d D3; typedef Eigen::Quaterniond DQ;
inline double stampOf(double t) { return ros::Time(t).toSec(); }
inline ref::V3 R3(const D3& v) { return ref::v3(v[0], v[1], v[2]); }
inline ref::V4 R4(const DQ& q) { return ref::q4(q.w(), q.x(), q.y(), q.z()); }
inline DQ axq(double ang, double x, double y, double z) { D3 a(x, y, z); a.normalize(); return DQ(Eigen::AngleAxisd(ang, a)); }
template<class M> bool numeric(const M& m) { for (int i = 0; i < m.size(); ++i) if (!std::isfinite((double)m(i))) return false; return true; }

struct Pars {             // start-up parameters of the node
  bool pose_abs = true, world_sensor = true, pose_fixedcov = true, pose_gate = false; double pose_thr = 100, min_dt = -1e6;
  bool pos_fixedcov = true, pos_abs = true, pos_gate = false; double pos_thr = 100;
  bool press_gate = false; double press_thr = 100;
  bool sph_fixedcov = true, sph_abs = true, sph_gate = false; double sph_thr = 100;
  D3 p_ic = D3::Zero(); DQ q_ic = DQ::Identity(); D3 p_ip = D3::Zero(); bool playback = false;
  std::string output_frame = "world", child_frame = "imu", tf_frame = "state";
  std::map<std::string, double> cfg, core;    // initial values of run-time parameters
  bool defaults = false;                      // leave every start-up parameter that equals the documented default unset
  bool noextr = false;                        // do not set init/* parameters
};
struct Real { double t = 0; ref::V x; ref::M P; };

template<class C> void cfgSet(C& c, const std::string& n, double v) {
  bool hit = false;
  C::forEach([&](const char* name, auto m, unsigned, double, double) { if (n == name) { c.*m = v; hit = true; } });
  if (!hit) { fprintf(stderr, "no config parameter %s\n", n.c_str()); abort(); }
}
template<class C> bool cfgHas(const std::string& n) { bool h = false; C::forEach([&](const char* name, auto, unsigned, double, double) { if (n == name) h = true; }); return h; }
template<class C> std::map<std::string, double> cfgAll(const C& c) { std::map<std::string, double> r; C::forEach([&](const char* name, auto m, unsigned, double, double) { r[name] = (double)(c.*m); }); return r; }

struct Node {
  fakeros::World w; std::unique_ptr<Holder> m; ref::RefNode ref; Pars pr;
  std::map<std::string, double> cfg, core;
  bool gotPose = false, gotPos = false; double prevPose = 0;
  ref::V3 zp = ref::V3::Zero(), zpos = ref::V3::Zero(); ref::V4 zq = ref::q4(1, 0, 0, 0); ref::R zpress = 0, zang0 = 0, zang1 = 0, zdist = 0;
  int idc = 0; uint32_t seq = 0; bool lockstep = true, blind = false; double tolx = 1e-8, tolP = 1e-8; unsigned cmps = 0;
  ref::V3 hlp = ref::V3::Zero();
  explicit Node(const Pars& p = Pars()) : ref(KIND), pr(p) { configure(); start(); }
  ~Node() { m.reset(); }
  bool hasPose() const { return ref.s.find("L"); } bool hasPos() const { std::string k = KIND; return k == "position" || k == "position_pose"; }
  bool hasPress() const { return ref.s.find("b_p"); } bool isSph() const { return std::string(KIND) == "spherical"; }
  template<class T> void par(const std::string& k, const T& v, const T& dflt) { if (pr.defaults && v == dflt) return; w.param<T>("/node/" + k, v); }
  void configure() {
    par("pose_sensor/pose_absolute_measurements", pr.pose_abs, true); par("pose_sensor/pose_measurement_world_sensor", pr.world_sensor, true);
    par("pose_sensor/pose_use_fixed_covariance", pr.pose_fixedcov, false); par("pose_sensor/pose_measurement_minimum_dt", pr.min_dt, 0.05);
    par("pose_sensor/enable_mah_outlier_rejection", pr.pose_gate, false); par("pose_sensor/mah_threshold", pr.pose_thr, 100.0);
    par("position_sensor/position_use_fixed_covariance", pr.pos_fixedcov, false); par("position_sensor/position_absolute_measurements", pr.pos_abs, false);
    par("position_sensor/enable_mah_outlier_rejection", pr.pos_gate, false); par("position_sensor/mah_threshold", pr.pos_thr, 100.0);
    par("pressure_sensor/enable_mah_outlier_rejection", pr.press_gate, false); par("pressure_sensor/mah_threshold", pr.press_thr, 100.0);
    par("spherical_position_sensor/use_fixed_covariance", pr.sph_fixedcov, true); par("spherical_position_sensor/absolute_measurements", pr.sph_abs, false);
    par("spherical_position_sensor/enable_mah_outlier_rejection", pr.sph_gate, false); par("spherical_position_sensor/mah_threshold", pr.sph_thr, 100.0);
    par("core/data_playback", pr.playback, false); par("core/msf_output_frame", pr.output_frame, std::string("world")); par("core/odometry_child_frame", pr.child_frame, std::string("imu")); par("core/tf_target_frame", pr.tf_frame, std::string("state"));
    if (!pr.noextr) {
      const char* ax[3] = {"x", "y", "z"};
      for (int i = 0; i < 3; ++i) { par(std::string("pose_sensor/init/p_ic/") + ax[i], (double)pr.p_ic[i], 0.0); par(std::string("position_sensor/init/p_ip/") + ax[i], (double)pr.p_ip[i], 0.0); }
      par("pose_sensor/init/q_ic/w", (double)pr.q_ic.w(), 1.0); par("pose_sensor/init/q_ic/x", (double)pr.q_ic.x(), 0.0); par("pose_sensor/init/q_ic/y", (double)pr.q_ic.y(), 0.0); par("pose_sensor/init/q_ic/z", (double)pr.q_ic.z(), 0.0);
    }
    Cfg c; for (auto& e : pr.cfg) { cfgSet(c, e.first, e.second); typed<Cfg>(c, e.first, CFGNS); } cfg = cfgAll(c);
    msf_core::MSF_CoreConfig cc; for (auto& e : pr.core) { cfgSet(cc, e.first, e.second); typed<msf_core::MSF_CoreConfig>(cc, e.first, "/node/core"); } core = cfgAll(cc);
    sync();
  }
  template<class C> void typed(C& c, const std::string& n, const std::string& ns) { C::forEach([&](const char* name, auto m, unsigned, double, double) { if (n == name) w.param(ns + "/" + name, c.*m); }); }
  void start() { fakeros::g_world = &w; m.reset(makeManager()); fakeros::g_world = &w; }
  void sync() {           // documented meaning of the noise parameters
    ref.n.acc = core["core_noise_acc"]; ref.n.accbias = core["core_noise_accbias"]; ref.n.gyr = core["core_noise_gyr"]; ref.n.gyrbias = core["core_noise_gyrbias"]; ref.n.fixed_bias = core["core_fixed_bias"] != 0;
    ref.n.aux.clear();
    auto a = [&](const char* st, const char* p) { if (cfg.count(p)) ref.n.aux[st] = cfg[p]; };
    a("L", "pose_noise_scale"); a("q_wv", "pose_noise_q_wv"); a("p_wv", "pose_noise_p_wv"); a("q_ic", "pose_noise_q_ic"); a("p_ic", "pose_noise_p_ic");
    a("p_ip", isSph() ? "noise_p_ip" : "position_noise_p_ip"); a("b_p", "press_noise_bias_p");
  }
  void setCfg(const std::string& n, double v) {
    fakeros::reconfigure<Cfg>(w, CFGNS, [&](Cfg& c) { cfgSet(c, n, v); });
    cfg = cfgAll(fakeros::server<Cfg>(w, CFGNS).config); sync();
  }
  void setCore(const std::string& n, double v) {
    fakeros::reconfigure<msf_core::MSF_CoreConfig>(w, "/node/core", [&](msf_core::MSF_CoreConfig& c) { cfgSet(c, n, v); });
    core = cfgAll(fakeros::server<msf_core::MSF_CoreConfig>(w, "/node/core").config); sync();
  }
  double C(const char* n) const { auto it = cfg.find(n); return it == cfg.end() ? 0 : it->second; }

  // ---- expected initial estimate, from the documentation of each node
  ref::V initState(ref::R scale) const {
    using namespace ref; const Sys& s = ref.s; V x = s.zero();
    V3 pic = R3(pr.p_ic), pip = R3(pr.p_ip); V4 qic = qnorm(R4(pr.q_ic)); V4 q = q4(1, 0, 0, 0);
    auto yaw = [&](ref::R deg) { ref::R h = deg / 180 * PI / 2; return q4(std::cos(h), 0, 0, std::sin(h)); };
    std::string k = KIND; V3 p;
    if (k == "pose" || k == "pose_pressure") { if (gotPose) q = qnorm(qmul(zq, qconj(qic))); p = zp / scale - rot(q) * pic; }
    else if (k == "position") { q = yaw(C("position_yaw_init")); p = zpos - rot(q) * pip; }
    else if (k == "position_pose") { q = yaw(C("position_yaw_init")); p = zpos - rot(q) * pip; }
    else { q = yaw(C("yaw_init")); p = zdist * v3(std::sin(zang0) * std::cos(zang1), std::sin(zang0) * std::sin(zang1), std::cos(zang0)) - rot(q) * pip; }
    x.segment(s.at("p").s, 3) = p; x.segment(s.at("q").s, 4) = q;
    if (s.find("L")) {
      x[s.at("L").s] = scale; x.segment(s.at("q_ic").s, 4) = qic; x.segment(s.at("p_ic").s, 3) = pic;
      if (k == "position_pose") {
        V4 qwv = qnorm(qmul(zq, qconj(qmul(q, qic)))); x.segment(s.at("q_wv").s, 4) = qwv;
        x.segment(s.at("p_wv").s, 3) = p + rot(q) * pic - rot(qconj(qwv)) * zp / scale;
      }
    }
    if (s.find("p_ip")) x.segment(s.at("p_ip").s, 3) = pip;
    if (s.find("b_p")) x[s.at("b_p").s] = p[2] - zpress;
    return x;
  }
  void refInit(ref::R scale) {
    using namespace ref; V x = initState(scale); V3 a = rot(qconj(ref.s.g4(x, "q"))) * v3(0, 0, 9.81L);
    ref.init(stampOf(fakeros::g_now), x, P0(ref.s), a, V3::Zero());
  }
  // ---- events
  void init(double now, double scale = 1) {      // "init filter" button
    fakeros::g_now = now; mc::note("init at %.4f scale %g", now, scale); mc::transition(); w.out.clear();
    fakeros::reconfigure<Cfg>(w, CFGNS, [&](Cfg& c) { if (cfgHas<Cfg>("pose_initial_scale")) cfgSet(c, "pose_initial_scale", scale); cfgSet(c, "core_init_filter", 1); });
    cfg = cfgAll(fakeros::server<Cfg>(w, CFGNS).config); sync();
    refInit(cfg.count("pose_initial_scale") ? (ref::R)cfg["pose_initial_scale"] : (ref::R)1);
  }
  // initialization services of the pose node; whether the request must succeed is known from the documentation
  bool initScale(double now, double scale) {
    fakeros::g_now = now; mc::note("service initialize_msf_scale %g", scale); mc::transition(); w.out.clear();
    sensor_fusion_comm::InitScale::Request rq; sensor_fusion_comm::InitScale::Response rs; rq.scale = scale;
    bool ok = w.call<sensor_fusion_comm::InitScale>("/node/pose_sensor/initialize_msf_scale", rq, rs); refInit((float)scale); return ok;
  }
  bool initHeight(double now, double h) {
    fakeros::g_now = now; mc::note("service initialize_msf_height %g", h); mc::transition(); w.out.clear();
    sensor_fusion_comm::InitHeight::Request rq; sensor_fusion_comm::InitHeight::Response rs; rq.height = h; float hf = (float)h;
    bool ok = w.call<sensor_fusion_comm::InitHeight>("/node/pose_sensor/initialize_msf_height", rq, rs);
    bool want = std::sqrt(zp.squaredNorm()) > 0 && zp[2] != 0 && std::fabs(hf) > 0.01f;
    mc::require(ok == want, "height-service-result", mc::fmt("height %g, reading z %g: service returned %d, expected %d", h, (double)zp[2], ok, want));
    if (want) refInit(zp[2] / hf); return ok;
  }
  void setHeight(double now, double h) {       // "set height" check box
    fakeros::g_now = now; mc::note("set height %g", h); mc::transition(); w.out.clear();
    fakeros::reconfigure<Cfg>(w, CFGNS, [&](Cfg& c) { cfgSet(c, "core_height", h); cfgSet(c, "core_set_height", 1); });
    cfg = cfgAll(fakeros::server<Cfg>(w, CFGNS).config); sync();
    if (std::sqrt(zp.squaredNorm()) > 0 && zp[2] != 0) refInit(zp[2] / cfg["core_height"]);
  }
  void imu(double t, const D3& a, const D3& g) {
    mc::note("imu t=%.5f a=(%g %g %g) w=(%g %g %g)", t, a[0], a[1], a[2], g[0], g[1], g[2]); mc::transition(); w.out.clear();
    auto msg = boost::make_shared<sensor_msgs::Imu>(); msg->header.stamp = ros::Time(t); msg->header.seq = seq++;
    msg->linear_acceleration.x = a[0]; msg->linear_acceleration.y = a[1]; msg->linear_acceleration.z = a[2];
    msg->angular_velocity.x = g[0]; msg->angular_velocity.y = g[1]; msg->angular_velocity.z = g[2];
    w.deliver<sensor_msgs::Imu>("/msf_core/imu_state_input", msg);
    if (lockstep) { ref.imu(stampOf(t), R3(a), R3(g)); compare(); }
  }
  // externally propagated state; flag as in ExtEkf
  void external(double t, const D3& a, const D3& g, const std::vector<float>& st, int flag) {
    mc::note("external t=%.5f flag %d state(%zu) p=(%g %g %g)", t, flag, st.size(), st.size() > 2 ? st[0] : 0, st.size() > 2 ? st[1] : 0, st.size() > 2 ? st[2] : 0); mc::transition(); w.out.clear();
    auto msg = boost::make_shared<sensor_fusion_comm::ExtEkf>(); msg->header.stamp = ros::Time(t); msg->header.seq = seq++;
    msg->linear_acceleration.x = a[0]; msg->linear_acceleration.y = a[1]; msg->linear_acceleration.z = a[2];
    msg->angular_velocity.x = g[0]; msg->angular_velocity.y = g[1]; msg->angular_velocity.z = g[2];
    msg->state = st; msg->flag = flag;
    w.deliver<sensor_fusion_comm::ExtEkf>("/msf_core/hl_state_input", msg);
    if (!lockstep) return;
    if (st.size() < 16) { ref.begin(); compare(); return; }
    hl = st;
    bool fin = true; for (int i = 0; i < 10; ++i) fin = fin && std::isfinite(st[i]);
    ref.external(stampOf(t), R3(a), R3(g), ref::v3(st[0], st[1], st[2]), ref::v3(st[3], st[4], st[5]), ref::q4(st[6], st[7], st[8], st[9]), flag == 1 && fin && !pr.playback);
    compare();
  }
  std::vector<float> hl = {0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  enum PoseTopic { PWC, ODOM, TRANSFORM, POSESTAMPED };
  ref::M poseR(const double* cov) const {
    ref::M r = ref::M::Zero(6, 6);
    if (pr.pose_fixedcov) { for (int i = 0; i < 3; ++i) { r(i, i) = (ref::R)C("pose_noise_meas_p") * C("pose_noise_meas_p"); r(i+3, i+3) = (ref::R)C("pose_noise_meas_q") * C("pose_noise_meas_q"); } }
    else for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (i / 3 == j / 3) r(i, j) = cov ? cov[6*i+j] : 0;
    return r;
  }
  std::set<std::string> poseFixed() const { std::set<std::string> f; if (C("pose_fixed_scale")) f.insert("L"); if (C("pose_fixed_p_ic")) f.insert("p_ic"); if (C("pose_fixed_q_ic")) f.insert("q_ic"); if (C("pose_fixed_p_wv")) f.insert("p_wv"); if (C("pose_fixed_q_wv")) f.insert("q_wv"); return f; }
  void pose(double t, const D3& p, const DQ& q, const double* cov = nullptr, PoseTopic topic = PWC) {
    mc::note("pose t=%.5f p=(%g %g %g) q=(%g %g %g %g)", t, p[0], p[1], p[2], q.w(), q.x(), q.y(), q.z()); mc::transition(); w.out.clear();
    ++seq;
    auto hdr = [&](auto& h) { h.stamp = ros::Time(t); h.seq = seq * 10; };
    auto fillP = [&](auto& ps) { ps.position.x = p[0]; ps.position.y = p[1]; ps.position.z = p[2]; ps.orientation.w = q.w(); ps.orientation.x = q.x(); ps.orientation.y = q.y(); ps.orientation.z = q.z(); };
    bool carriesCov = true;
    if (topic == PWC) { auto g = boost::make_shared<geometry_msgs::PoseWithCovarianceStamped>(); hdr(g->header); fillP(g->pose.pose); if (cov) for (int i = 0; i < 36; ++i) g->pose.covariance[i] = cov[i]; w.deliver<geometry_msgs::PoseWithCovarianceStamped>("/msf_updates/pose_with_covariance_input", g); }
    else if (topic == ODOM) { auto g = boost::make_shared<nav_msgs::Odometry>(); hdr(g->header); fillP(g->pose.pose); if (cov) for (int i = 0; i < 36; ++i) g->pose.covariance[i] = cov[i]; w.deliver<nav_msgs::Odometry>("/msf_updates/odometry_input", g); }
    else if (topic == TRANSFORM) { carriesCov = false; auto g = boost::make_shared<geometry_msgs::TransformStamped>(); hdr(g->header); g->transform.translation.x = p[0]; g->transform.translation.y = p[1]; g->transform.translation.z = p[2]; g->transform.rotation.w = q.w(); g->transform.rotation.x = q.x(); g->transform.rotation.y = q.y(); g->transform.rotation.z = q.z(); w.deliver<geometry_msgs::TransformStamped>("/msf_updates/transform_input", g); }
    else { carriesCov = false; auto g = boost::make_shared<geometry_msgs::PoseStamped>(); hdr(g->header); fillP(g->pose); w.deliver<geometry_msgs::PoseStamped>("/msf_updates/pose_input", g); }
    if (!lockstep) return;
    ref.begin();
    if (hasPose() && (carriesCov || pr.pose_fixedcov)) {
      gotPose = true; double ts = stampOf(t);
      if (std::fabs(ts - prevPose) <= pr.min_dt - 0.001) { ref.why = "throttled"; compare(); return; }
      prevPose = ts;
      ref::Meas k; k.kind = ref::POSE; k.t = ts - C("pose_delay"); k.zp = R3(p); k.zq = R4(q); k.Rm = poseR(cov);
      if (!pr.world_sensor) { ref::M3 Cz = ref::rot(k.zq); ref::M T = ref::M::Zero(6, 6); T.block<3,3>(0,0) = Cz.transpose(); T.block<3,3>(3,3) = Cz.transpose(); k.zp = -Cz.transpose() * k.zp; k.zq = ref::qconj(k.zq); k.Rm = (T * k.Rm * T.transpose()).eval(); }
      k.fixed = poseFixed(); k.gate = pr.pose_gate; k.thr = pr.pose_thr; k.relative = !pr.pose_abs; k.sensor = 0; k.id = ++idc;
      zp = k.zp; zq = k.zq; ref.meas(k);
    }
    compare();
  }
  enum PosTopic { POINT, PTRANSFORM };
  void posMeas(double ts, const ref::V3& p, const double* cov) {   // reference side
    gotPos = true; ref.begin();
    if (!pr.pos_fixedcov && (!cov || cov[0] == 0)) { ref.why = "no covariance"; return; }
    ref::Meas k; k.kind = ref::POSITION; k.t = ts - C("position_delay"); k.zp = p; k.Rm = ref::M::Zero(3, 3);
    if (pr.pos_fixedcov) for (int i = 0; i < 3; ++i) k.Rm(i, i) = (ref::R)C("position_noise_meas") * C("position_noise_meas"); else for (int i = 0; i < 9; ++i) k.Rm(i/3, i%3) = cov[i];
    if (C("position_fixed_p_ip")) k.fixed.insert("p_ip");
    k.gate = pr.pos_gate; k.thr = pr.pos_thr; k.sensor = 1; k.id = ++idc; zpos = p; ref.meas(k);
  }
  void position(double t, const D3& p, PosTopic topic = POINT) {
    mc::note("position t=%.5f p=(%g %g %g)", t, p[0], p[1], p[2]); mc::transition(); w.out.clear();
    if (topic == POINT) { auto g = boost::make_shared<geometry_msgs::PointStamped>(); g->header.stamp = ros::Time(t); g->header.seq = ++seq; g->point.x = p[0]; g->point.y = p[1]; g->point.z = p[2]; w.deliver<geometry_msgs::PointStamped>("/msf_updates/position_input", g); }
    else { auto g = boost::make_shared<geometry_msgs::TransformStamped>(); g->header.stamp = ros::Time(t); g->header.seq = (++seq) * 5; g->transform.translation.x = p[0]; g->transform.translation.y = p[1]; g->transform.translation.z = p[2]; g->transform.rotation.w = 1; w.deliver<geometry_msgs::TransformStamped>("/msf_updates/transform_input", g); }
    if (lockstep) { posMeas(stampOf(t), R3(p), nullptr); compare(); }
  }
  // enu: what the fix corresponds to in local coordinates (computed by the caller), cov 9 values
  void gps(double t, double lat, double lon, double alt, const D3& enu, const double* cov, int covtype) {
    mc::note("gps t=%.5f %g %g %g -> enu %g %g %g", t, lat, lon, alt, enu[0], enu[1], enu[2]); mc::transition(); w.out.clear();
    auto g = boost::make_shared<sensor_msgs::NavSatFix>(); g->header.stamp = ros::Time(t); g->header.seq = ++seq; g->latitude = lat; g->longitude = lon; g->altitude = alt; g->position_covariance_type = covtype; if (cov) for (int i = 0; i < 9; ++i) g->position_covariance[i] = cov[i];
    w.deliver<sensor_msgs::NavSatFix>("/msf_updates/navsatfix_input", g);
    if (lockstep) { posMeas(stampOf(t), R3(enu), covtype ? cov : nullptr); compare(); }
  }
  void pressure(double t, double h, bool tenth = true) {
    mc::note("pressure t=%.5f h=%g%s", t, h, tenth ? "" : " (dropped)"); mc::transition(); w.out.clear();
    auto g = boost::make_shared<geometry_msgs::PointStamped>(); g->header.stamp = ros::Time(t); ++seq; g->header.seq = seq * 10 + (tenth ? 0 : 3); g->point.z = h; g->point.x = 77; g->point.y = -55;
    w.deliver<geometry_msgs::PointStamped>("/msf_updates/pressure_height", g);
    if (!lockstep) return;
    ref.begin();
    if (tenth) { ref::Meas k; k.kind = ref::PRESSURE; k.t = stampOf(t); k.z0 = h; k.Rm = ref::M::Constant(1, 1, (ref::R)C("press_noise_meas_p") * C("press_noise_meas_p")); k.gate = pr.press_gate; k.thr = pr.press_thr; k.sensor = 2; k.id = ++idc; zpress = h; ref.meas(k); }
    compare();
  }
  void sphMeas(ref::Kind kind, double t, double a, double b) {
    auto g = boost::make_shared<geometry_msgs::PointStamped>(); g->header.stamp = ros::Time(t); g->header.seq = ++seq;
    bool ang = kind == ref::ANGLE; if (ang) { g->point.x = a; g->point.y = b; } else g->point.z = a;
    mc::note("%s t=%.5f %g %g", ang ? "angle" : "distance", t, a, b); mc::transition(); w.out.clear();
    w.deliver<geometry_msgs::PointStamped>(ang ? "/msf_updates/angle_input" : "/msf_updates/distance_input", g);
    if (!lockstep) return;
    ref.begin();
    if (pr.sph_fixedcov) {
      double n = C(ang ? "angle_noise_meas" : "distance_noise_meas"); int r = ang ? 2 : 1;
      ref::Meas k; k.kind = kind; k.t = stampOf(t) - C(ang ? "angle_delay" : "distance_delay"); k.z0 = a; k.z1 = b; k.Rm = ref::M::Identity(r, r) * ((ref::R)n * n);
      if (C("fixed_p_ip")) k.fixed.insert("p_ip"); k.gate = pr.sph_gate; k.thr = pr.sph_thr; k.sensor = ang ? 3 : 4; k.id = ++idc;
      if (ang) { zang0 = a; zang1 = b; } else zdist = a;
      ref.meas(k);
    }
    compare();
  }
  void angle(double t, double th, double ph) { sphMeas(ref::ANGLE, t, th, ph); }
  void distance(double t, double d) { sphMeas(ref::DISTANCE, t, d, 0); }

  // ---- observations
  bool readFull(Real& r) const {      // last state_out and covariance blocks
    auto s = w.last<sensor_fusion_comm::DoubleArrayStamped>("/msf_core/state_out");
    if (!s) return false;
    r.t = s->header.stamp.toSec(); r.x.resize(s->data.size()); for (size_t i = 0; i < s->data.size(); ++i) r.x[i] = s->data[i];
    auto c = w.last<sensor_fusion_comm::DoubleMatrixStamped>("/msf_core/cov_core"), a = w.last<sensor_fusion_comm::DoubleMatrixStamped>("/msf_core/cov_aux"), x = w.last<sensor_fusion_comm::DoubleMatrixStamped>("/msf_core/cov_core_aux");
    int ne = ref.s.ne, na = ne - 15; r.P = ref::M::Zero(ne, ne);
    auto put = [&](const sensor_fusion_comm::DoubleMatrixStamped& d, int r0, int c0, int nr, int nc, const char* nm) {
      mc::require((int)d.rows == nr && (int)d.cols == nc && (int)d.data.size() == nr * nc, "covariance-layout", mc::fmt("%s has %d x %d (%zu)", nm, (int)d.rows, (int)d.cols, d.data.size()));
      for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) r.P(r0 + i, c0 + j) = d.data[i * nc + j];
    };
    if (!c || !a || !x) mc::fail("missing-output", "state_out without covariance blocks");
    put(*c, 0, 0, 15, 15, "cov_core"); put(*a, 15, 15, na, na, "cov_aux"); put(*x, 0, 15, 15, na, "cov_core_aux");
    r.P.block(15, 0, na, 15) = r.P.block(0, 15, 15, na).transpose();
    return true;
  }
  double devX(const ref::V& a, const ref::V& b, std::string* where = nullptr) const {   // worst state difference, relative to 1 + magnitude
    double worst = 0; if (a.size() != b.size()) return 1e9;
    for (auto& v : ref.s.vars) {
      ref::R sg = 1; if (v.quat && a.segment(v.s, 4).dot(b.segment(v.s, 4)) < 0) sg = -1;
      ref::R mag = 1 + std::sqrt(b.segment(v.s, v.n).squaredNorm());
      for (int i = 0; i < v.n; ++i) { double d = (double)(std::fabs(a[v.s+i] - sg * b[v.s+i]) / mag); if (!(d <= worst)) { worst = std::isnan(d) ? 1e9 : d; if (where) *where = mc::fmt("%s[%d] is %.12g, expected %.12g", v.name.c_str(), i, a[v.s+i], sg * b[v.s+i]); } }
    }
    return worst;
  }
  double devP(const ref::M& a, const ref::M& b, std::string* where = nullptr) const {
    double worst = 0; auto nm = [&](int i) { for (auto& v : ref.s.vars) if (i >= v.eo && i < v.eo + v.e) return v.name + "[" + std::to_string(i - v.eo) + "]"; return std::to_string(i); };
    for (int i = 0; i < b.rows(); ++i) for (int j = 0; j < b.cols(); ++j) {
      ref::R sc = std::sqrt(std::fabs(b(i, i) * b(j, j))) + (ref::R)1e-12; double d = (double)(std::fabs(a(i, j) - b(i, j)) / sc);
      if (!(d <= worst)) { worst = std::isnan(d) ? 1e9 : d; if (where) *where = mc::fmt("P(%s,%s) is %.9g, expected %.9g", nm(i).c_str(), nm(j).c_str(), a(i, j), b(i, j)); }
    }
    return worst;
  }
  // steps of many seconds or large angles: the quadrature of the process noise is only approximate there
  bool coarse() const { return ref.maxdt > 0.2 || ref.maxwdt > 0.15; }
  double tolX() const { return coarse() ? std::max(tolx, 1e-5) : tolx; } double tolp() const { return coarse() ? std::max(tolP, 1e-4) : tolP; }
  void same(const char* what, double t, const ref::V& x, const ref::M& P, double rt, const ref::V& ex, const ref::M& eP) {
    std::string wx, wP; mc::check(); ++cmps; double tolx = tolX(), tolP = tolp();
    if (stampOf(rt) != t) mc::fail(std::string(what) + "-stamp", mc::fmt("stamped %.9f, expected %.9f", t, rt));
    double d = devX(x, ex, &wx); mc::deviation(d); if (d > tolx) mc::fail(std::string(what) + "-state", mc::fmt("%s (deviation %.3g)", wx.c_str(), d));
    double e = devP(P, eP, &wP); mc::deviation(e); if (e > tolP) mc::fail(std::string(what) + "-covariance", mc::fmt("%s (relative deviation %.3g)", wP.c_str(), e));
  }
  uint64_t hash() const { uint64_t h = ref.st.size(); for (auto& e : ref.st) { h = mc::mix(h, (uint64_t)llround(e.first * 1e6)); for (int i = 0; i < 10; ++i) h = mc::mix(h, (uint64_t)llround((double)e.second.x[i] * 1e7)); } return mc::mix(h, ref.queue.size() * 4 + ref.inited * 2 + ref.predicted); }
  // Everything published during the last event against the reference.
  void compare() {
    if (blind) return;
    mc::check(); mc::state(hash());
    int np = w.count("/msf_core/pose"), nu = w.count("/msf_core/state_out");
    if (ref.pubProp != (np == 1) || np > 1) mc::fail(ref.pubProp ? "missing-propagation" : "unexpected-propagation", mc::fmt("%d poses published after the event, expected %d (%s)", np, ref.pubProp ? 1 : 0, ref.why.c_str()));
    if (ref.pubUpd != (nu == 1) || nu > 1) mc::fail(ref.pubUpd ? "missing-update" : "unexpected-update", mc::fmt("%d updates published after the event, expected %d (%s)", nu, ref.pubUpd ? 1 : 0, ref.why.c_str()));
    if (np) compareProp();
    if (nu) { Real r; readFull(r); same("update", r.t, r.x, r.P, ref.latest().t, ref.latest().x, ref.latest().P); }
  }
  void compareProp() {
    auto ps = w.last<geometry_msgs::PoseWithCovarianceStamped>("/msf_core/pose"); auto ex = w.last<sensor_fusion_comm::ExtState>("/msf_core/ext_state");
    mc::check(); ++cmps;
    if (!ex) mc::fail("missing-output", "no ext_state after a propagation");
    const ref::Sys& s = ref.s; ref::V x = ref.propX;
    if (ps->header.stamp.toSec() != stampOf(ref.propT)) mc::fail("propagation-stamp", mc::fmt("pose stamped %.9f, expected %.9f", ps->header.stamp.toSec(), ref.propT));
    auto& pp = ps->pose.pose; ref::V y = x;
    y.segment(s.at("p").s, 3) = ref::v3(pp.position.x, pp.position.y, pp.position.z); y.segment(s.at("q").s, 4) = ref::q4(pp.orientation.w, pp.orientation.x, pp.orientation.y, pp.orientation.z); y.segment(s.at("v").s, 3) = ref::v3(ex->velocity.x, ex->velocity.y, ex->velocity.z);
    std::string wh; double d = devX(y, x, &wh); mc::deviation(d); if (d > tolX()) mc::fail("propagation-state", mc::fmt("%s (deviation %.3g)", wh.c_str(), d));
    ref::M a(6, 6), b(6, 6); int idx[6] = {0, 1, 2, 6, 7, 8};
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { a(i, j) = ps->pose.covariance[i * 6 + j]; b(i, j) = ref.propP(idx[i], idx[j]); }
    double e = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { double q = (double)(std::fabs(a(i, j) - b(i, j)) / (std::sqrt(std::fabs(b(i, i) * b(j, j))) + 1e-12L)); if (!(q <= e)) { e = std::isnan(q) ? 1e9 : q; wh = mc::fmt("pose covariance (%d,%d) is %.9g, expected %.9g", i, j, a(i, j), b(i, j)); } }
    mc::deviation(e); if (e > tolp()) mc::fail("propagation-covariance", mc::fmt("%s (relative deviation %.3g)", wh.c_str(), e));
  }
  // Makes the whole estimate visible: a reading of very low weight at the newest time (position far off does not matter).
  bool settle(int maxImu = 6, double dt = 0.01) { int n = 0; while (!ref.queue.empty() && n++ < maxImu) imu(ref.latest().t + dt, D3(0.1, 0.2, 9.8), D3(0.01, 0, 0.02)); return ref.queue.empty(); }
};
#endif
