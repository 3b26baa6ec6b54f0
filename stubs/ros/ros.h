// Stand-in for roscpp: one process, no network.  A "World" is one running node with its parameters, subscriptions and
// a log of everything it published.  The harness delivers messages synchronously, exactly as ros::spin() would
// (single-threaded, one callback at a time).
#ifndef FAKE_ROS_ROS_H
#define FAKE_ROS_ROS_H
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <typeindex>
#include <cstdlib>
#include <boost/any.hpp>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <unistd.h>
#include <ros/time.h>
#include <ros/console.h>
using namespace boost::placeholders;
namespace fakeros {
struct Rec { std::string topic; std::type_index type; boost::shared_ptr<void const> msg; unsigned long order; };
struct World;
inline World* g_world = nullptr;
inline std::function<void()> g_spin;      // what happens while a node spins
struct SubEntry { std::string topic; std::type_index type; std::function<void(const boost::shared_ptr<void const>&)> cb; };
struct World {
  std::map<std::string, boost::any> params;
  std::vector<SubEntry> subs;
  std::vector<Rec> out;
  std::vector<std::string> advertised;
  std::map<std::string, int> nsub;   // number of subscribers per output topic
  int nsub_default = 1;
  bool record = true;
  unsigned long order = 0;
  std::map<std::string, std::function<bool(void*, void*)>> services;
  std::map<std::string, void*> reconf;   // namespace -> dynamic_reconfigure server
  World() { g_world = this; }
  ~World() { if (g_world == this) g_world = nullptr; }
  template<class T> void param(const std::string& k, const T& v) { params[k] = v; }
  // Deliver a message to every subscriber of the topic with that type; returns the number of callbacks run.
  template<class M> int deliver(const std::string& topic, const boost::shared_ptr<M const>& m) {
    World* prev = g_world; g_world = this;
    int n = 0;
    for (size_t i = 0; i < subs.size(); ++i)
      if (subs[i].topic == topic && subs[i].type == std::type_index(typeid(M))) { subs[i].cb(m); ++n; }
    g_world = prev;
    return n;
  }
  template<class S> bool call(const std::string& name, typename S::Request& rq, typename S::Response& rs) {
    World* prev = g_world; g_world = this;
    auto it = services.find(name);
    bool r = it != services.end() && it->second(&rq, &rs);
    g_world = prev;
    return r;
  }
  template<class M> boost::shared_ptr<M const> last(const std::string& topic) const {
    for (size_t i = out.size(); i-- > 0;)
      if (out[i].topic == topic && out[i].type == std::type_index(typeid(M))) return boost::static_pointer_cast<M const>(out[i].msg);
    return boost::shared_ptr<M const>();
  }
  int count(const std::string& topic) const { int n = 0; for (auto& r : out) n += r.topic == topic; return n; }
};
inline std::string norm(const std::string& ns) {
  std::string s = ns, r;
  if (!s.empty() && s[0] == '~') s = "/node/" + s.substr(1);
  else if (s.empty() || s[0] != '/') s = "/" + s;
  for (char c : s) { if (c == '/' && !r.empty() && r.back() == '/') continue; r += c; }
  while (r.size() > 1 && r.back() == '/') r.pop_back();
  return r;
}
}
namespace ros {
typedef std::vector<std::string> V_string;
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } TransportHints& udp() { return *this; } };
struct Publisher {
  fakeros::World* w = nullptr; std::string topic;
  template<class M> void publish(const boost::shared_ptr<M>& m) const {
    if (!w) return;
    typedef typename std::remove_const<M>::type MM;
    if (w->record) w->out.push_back({topic, typeid(MM), boost::shared_ptr<void const>(boost::make_shared<MM>(*m)), w->order++});
  }
  template<class M> void publish(const M& m) const {
    if (w && w->record) w->out.push_back({topic, typeid(M), boost::shared_ptr<void const>(boost::make_shared<M>(m)), w->order++});
  }
  uint32_t getNumSubscribers() const {
    if (!w) return 0;
    auto it = w->nsub.find(topic); return it == w->nsub.end() ? w->nsub_default : it->second;
  }
  std::string getTopic() const { return topic; }
  operator bool() const { return w; }
  void shutdown() { w = nullptr; }
};
struct Subscriber { std::string topic; std::string getTopic() const { return topic; } void shutdown() {} operator bool() const { return !topic.empty(); } uint32_t getNumPublishers() const { return 1; } };
struct ServiceServer { std::string name; std::string getService() const { return name; } void shutdown() {} operator bool() const { return !name.empty(); } };
struct NodeHandle {
  fakeros::World* w; std::string ns;
  NodeHandle(const std::string& n = "") : w(fakeros::g_world), ns(fakeros::norm(n)) {
    if (!w) { fprintf(stderr, "fakeros: no world\n"); abort(); }
  }
  NodeHandle(const NodeHandle& p, const std::string& n) : w(p.w), ns(fakeros::norm(p.ns + "/" + n)) {}
  std::string getNamespace() const { return ns; }
  std::string resolve(const std::string& n) const { return (!n.empty() && n[0] == '/') ? fakeros::norm(n) : fakeros::norm(ns + "/" + n); }
  std::string resolveName(const std::string& n) const { return resolve(n); }
  template<class M> Publisher advertise(const std::string& t, uint32_t, bool = false) const {
    Publisher p; p.w = w; p.topic = resolve(t); w->advertised.push_back(p.topic); return p;
  }
  template<class M, class T>
  Subscriber subscribe(const std::string& t, uint32_t, void (T::*fp)(const boost::shared_ptr<M const>&), T* obj, const TransportHints& = TransportHints()) {
    Subscriber s; s.topic = resolve(t);
    w->subs.push_back({s.topic, typeid(M), [obj, fp](const boost::shared_ptr<void const>& m) { (obj->*fp)(boost::static_pointer_cast<M const>(m)); }});
    return s;
  }
  template<class M>
  Subscriber subscribe(const std::string& t, uint32_t, void (*fp)(const boost::shared_ptr<M const>&), const TransportHints& = TransportHints()) {
    Subscriber s; s.topic = resolve(t);
    w->subs.push_back({s.topic, typeid(M), [fp](const boost::shared_ptr<void const>& m) { fp(boost::static_pointer_cast<M const>(m)); }});
    return s;
  }
  template<class M>
  Subscriber subscribe(const std::string& t, uint32_t, const boost::function<void(const boost::shared_ptr<M const>&)>& f, const TransportHints& = TransportHints()) {
    Subscriber s; s.topic = resolve(t);
    w->subs.push_back({s.topic, typeid(M), [f](const boost::shared_ptr<void const>& m) { f(boost::static_pointer_cast<M const>(m)); }});
    return s;
  }
  template<class T, class Rq, class Rs>
  ServiceServer advertiseService(const std::string& n, bool (T::*fp)(Rq&, Rs&), T* obj) {
    ServiceServer s; s.name = resolve(n);
    w->services[s.name] = [obj, fp](void* a, void* b) { return (obj->*fp)(*static_cast<Rq*>(a), *static_cast<Rs*>(b)); };
    return s;
  }
  template<class T> bool getParam(const std::string& k, T& v) const {
    auto it = w->params.find(resolve(k));
    if (it == w->params.end()) return false;
    if (const T* p = boost::any_cast<T>(&it->second)) { v = *p; return true; }
    return fromNumber(it->second, v);
  }
  template<class T> static bool fromNumber(const boost::any&, T&) { return false; }
  static bool fromNumber(const boost::any& a, double& v) { if (auto p = boost::any_cast<int>(&a)) { v = *p; return true; } return false; }
  template<class T> bool param(const std::string& k, T& v, const T& d) const { if (getParam(k, v)) return true; v = d; return false; }
  template<class T> T param(const std::string& k, const T& d) const { T v; return getParam(k, v) ? v : d; }
  bool deleteParam(const std::string& k) const { return w->params.erase(resolve(k)); }
  bool hasParam(const std::string& k) const { return w->params.count(resolve(k)); }
  template<class T> void setParam(const std::string& k, const T& v) const { w->params[resolve(k)] = v; }
  bool ok() const { return true; }
};
namespace this_node {
inline std::string getName() { return "/node"; }
inline void getSubscribedTopics(V_string& v) { v.clear(); if (fakeros::g_world) for (auto& s : fakeros::g_world->subs) v.push_back(s.topic); }
inline void getAdvertisedTopics(V_string& v) { v.clear(); if (fakeros::g_world) v = fakeros::g_world->advertised; }
}
inline void init(int, char**, const std::string&) {}
inline void spin() { if (fakeros::g_spin) fakeros::g_spin(); }
inline void spinOnce() {}
inline bool ok() { return true; }
inline void shutdown() {}
inline bool isInitialized() { return true; }
inline bool isShuttingDown() { return false; }
}
#endif
