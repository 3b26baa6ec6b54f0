// C26: the relay node (msf_distort): every sequence of messages and switch changes.
#include <ros/ros.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PointStamped.h>
int main(int, char**) __asm__("relay_main");             // the node's main under another symbol
#include <msf_distort.cc>
extern "C" int relay_main(int, char**);
extern "C" int harness_main(int, char**) __asm__("main");
#include "mc.hpp"
typedef msf_distort::MSF_DistortConfig RC;
static const char* NS = "/msf_distort";
typedef std::vector<double> Flat;
static void head(Flat& f, const std_msgs::Header& h) { f.push_back(h.seq); f.push_back(h.stamp.toSec()); for (char c : h.frame_id) f.push_back(c); }
static Flat flat(const geometry_msgs::PoseWithCovarianceStamped& m) { Flat f; head(f, m.header); auto& p = m.pose.pose; f.insert(f.end(), {p.position.x, p.position.y, p.position.z, p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z}); f.insert(f.end(), m.pose.covariance.begin(), m.pose.covariance.end()); return f; }
static Flat flat(const geometry_msgs::TransformStamped& m) { Flat f; head(f, m.header); for (char c : m.child_frame_id) f.push_back(c); auto& t = m.transform; f.insert(f.end(), {t.translation.x, t.translation.y, t.translation.z, t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z}); return f; }
static Flat flat(const geometry_msgs::PoseStamped& m) { Flat f; head(f, m.header); auto& p = m.pose; f.insert(f.end(), {p.position.x, p.position.y, p.position.z, p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z}); return f; }
static Flat flat(const sensor_msgs::NavSatFix& m) { Flat f; head(f, m.header); f.insert(f.end(), {m.latitude, m.longitude, m.altitude, (double)m.position_covariance_type, (double)m.status.status, (double)m.status.service}); f.insert(f.end(), m.position_covariance.begin(), m.position_covariance.end()); return f; }
static Flat flat(const geometry_msgs::PointStamped& m) { Flat f; head(f, m.header); f.insert(f.end(), {m.point.x, m.point.y, m.point.z}); return f; }
static void hdr(std_msgs::Header& h, int k) { h.seq = k; h.stamp = ros::Time(1000 + 0.1 * k); h.frame_id = k % 2 ? "camera" : "world"; }
static double V(int k, int i) { if (k % 5 == 3) return 0; if (k % 5 == 4 && i % 4 == 1) return NAN; return std::sin(k * 3.1 + i) * (1 + i); }
static void fill(geometry_msgs::PoseWithCovarianceStamped& m, int k) { hdr(m.header, k); auto& p = m.pose.pose; p.position.x = V(k, 0); p.position.y = V(k, 1); p.position.z = V(k, 2); p.orientation.w = V(k, 3); p.orientation.x = V(k, 4); p.orientation.y = V(k, 5); p.orientation.z = V(k, 6); for (int i = 0; i < 36; ++i) m.pose.covariance[i] = V(k, 7 + i); }
static void fill(geometry_msgs::TransformStamped& m, int k) { hdr(m.header, k); m.child_frame_id = "body"; auto& t = m.transform; t.translation.x = V(k, 0); t.translation.y = V(k, 1); t.translation.z = V(k, 2); t.rotation.w = V(k, 3); t.rotation.x = V(k, 4); t.rotation.y = V(k, 5); t.rotation.z = V(k, 6); }
static void fill(geometry_msgs::PoseStamped& m, int k) { hdr(m.header, k); auto& p = m.pose; p.position.x = V(k, 0); p.position.y = V(k, 1); p.position.z = V(k, 2); p.orientation.w = V(k, 3); p.orientation.x = V(k, 4); p.orientation.y = V(k, 5); p.orientation.z = V(k, 6); }
static void fill(sensor_msgs::NavSatFix& m, int k) { hdr(m.header, k); m.latitude = 40 + V(k, 0); m.longitude = V(k, 1) * 20; m.altitude = k % 3 ? V(k, 2) : NAN; m.position_covariance_type = k % 4; m.status.status = k % 4 - 1; m.status.service = 1 << (k % 4); for (int i = 0; i < 9; ++i) m.position_covariance[i] = V(k, 3 + i); }
static void fill(geometry_msgs::PointStamped& m, int k) { hdr(m.header, k); m.point.x = V(k, 0); m.point.y = V(k, 1); m.point.z = V(k, 2); }
static bool sameF(const Flat& a, const Flat& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }
template<class M> void send(fakeros::World& w, const char* in, const char* out, int k, bool on) {
  auto m = boost::make_shared<M>(); fill(*m, k); Flat want = flat(*m); mc::note("message %d on %s (%s)", k, in, on ? "enabled" : "disabled"); mc::transition();
  w.out.clear(); int n = w.deliver<M>(std::string(NS) + "/" + in, boost::shared_ptr<M const>(m)); mc::check();
  if (n != 1) mc::fail("not-subscribed", mc::fmt("%d callbacks for %s", n, in));
  if (w.out.size() != (on ? 1u : 0u)) mc::fail(on ? "not-forwarded" : "forwarded-while-off", mc::fmt("%zu messages published after one on %s", w.out.size(), in));
  if (!on) return; auto got = w.last<M>(std::string(NS) + "/" + out);
  if (!got) mc::fail("wrong-output", mc::fmt("message from %s went to %s", in, w.out[0].topic.c_str()));
  if (!sameF(flat(*got), want)) mc::fail("content-changed", mc::fmt("message from %s was altered", in));
}
static void relay(int depth) {
  fakeros::World w; int pp = mc::choose(3), ps = mc::choose(3); bool pose = pp != 1, pos = ps != 1;      // default, off, on
  if (pp) w.param<bool>(std::string(NS) + "/publish_pose", pp == 2); if (ps) w.param<bool>(std::string(NS) + "/publish_position", ps == 2);
  bool ran = false;
  auto body = [&] { ran = true; uint64_t h = 0;
    for (int i = 0; i < depth; ++i) { int e = mc::choose(9); h = mc::mix(h, e); switch (e) {
      case 0: send<geometry_msgs::PoseWithCovarianceStamped>(w, "pose_with_covariance_input", "pose_with_covariance_output", i, pose); break;
      case 1: send<geometry_msgs::TransformStamped>(w, "transform_input", "transform_output", i, pose); break;
      case 2: send<geometry_msgs::PoseStamped>(w, "pose_input", "pose_output", i, pose); break;
      case 3: send<sensor_msgs::NavSatFix>(w, "navsatfix_input", "navsatfix_output", i, pos); break;
      case 4: send<geometry_msgs::PointStamped>(w, "point_input", "point_output", i, pos); break;
      case 5: pose = !pose; mc::note("poses %s", pose ? "on" : "off"); fakeros::reconfigure<RC>(w, NS, [&](RC& c) { c.publish_pose = pose; }); break;
      case 6: pos = !pos; mc::note("positions %s", pos ? "on" : "off"); fakeros::reconfigure<RC>(w, NS, [&](RC& c) { c.publish_position = pos; }); break;
      case 7: pose = !pose; pos = !pos; mc::note("both switched"); fakeros::reconfigure<RC>(w, NS, [&](RC& c) { c.publish_pose = pose; c.publish_position = pos; }); break;
      case 8: mc::note("same settings again"); fakeros::reconfigure<RC>(w, NS, [&](RC&) {}); break; }
      mc::state(mc::mix(h, pose * 2 + pos)); }
    send<geometry_msgs::PoseWithCovarianceStamped>(w, "pose_with_covariance_input", "pose_with_covariance_output", 90, pose); send<geometry_msgs::PointStamped>(w, "point_input", "point_output", 91, pos); mc::outcome(h); };
  std::exception_ptr ex; fakeros::g_spin = [&] { body(); }; struct Off { ~Off() { fakeros::g_spin = nullptr; } } off;
  char name[] = "msf_distort"; char* av[] = {name, nullptr}; relay_main(1, av); mc::require(ran, "harness", "the node did not spin");
}
extern "C" int harness_main(int argc, char** argv) {
  bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough"; std::vector<mc::Scenario> L; mc::Scenario s; s.name = "c26_sequences"; s.sharddepth = 3; s.fn = [=] { relay(th ? 7 : 5); }; L.push_back(s); return mc::mainLoop(argc, argv, L);
}
