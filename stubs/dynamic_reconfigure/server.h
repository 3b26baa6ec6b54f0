// Stand-in for dynamic_reconfigure::Server with the semantics of the real one: initial values come from the parameter
// server (clamped), the callback runs once with all level bits set when it is installed, and later requests are
// clamped, diffed against the current values and delivered with the OR of the changed parameters' levels.
#ifndef FAKE_DYNRECONF_H
#define FAKE_DYNRECONF_H
#include <ros/ros.h>
#include <type_traits>
#include <limits>
namespace dynamic_reconfigure {
template<class C> class Server {
 public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  fakeros::World* w; std::string ns; C config; CallbackType cb;
  Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : w(nh.w), ns(nh.getNamespace()) {
    C& c = config;
    auto ww = w; auto n = ns;
    C::forEach([&](const char* name, auto m, unsigned, double mi, double ma) {
      auto it = ww->params.find(fakeros::norm(n + "/" + name));
      if (it != ww->params.end()) {
        typedef typename std::remove_reference<decltype(c.*m)>::type T;
        if (auto p = boost::any_cast<T>(&it->second)) c.*m = *p;
        clampOne(c.*m, mi, ma);
      }
    });
    w->reconf[ns] = this;
  }
  ~Server() { if (w->reconf.count(ns) && w->reconf[ns] == this) w->reconf.erase(ns); }
  template<class T> static void clampOne(T& v, double mi, double ma) { if (std::is_same<T, bool>::value) return; if ((double)v < mi) v = (T)mi; if ((double)v > ma) v = (T)ma; }
  void setCallback(const CallbackType& f) { cb = f; cb(config, ~0u); }
  void clearCallback() { cb.clear(); }
  void updateConfig(const C& c) { config = c; }
  // What the reconfigure service does.
  void request(C nc) {
    uint32_t level = 0; C& old = config;
    C::forEach([&](const char*, auto m, unsigned l, double mi, double ma) { clampOne(nc.*m, mi, ma); if (nc.*m != old.*m) level |= l; });
    if (cb) cb(nc, level);
    config = nc;
  }
};
}
namespace fakeros {
template<class C> dynamic_reconfigure::Server<C>& server(World& w, const std::string& ns) {
  auto it = w.reconf.find(norm(ns));
  if (it == w.reconf.end()) { fprintf(stderr, "fakeros: no reconfigure server %s\n", ns.c_str()); abort(); }
  return *static_cast<dynamic_reconfigure::Server<C>*>(it->second);
}
template<class C, class F> void reconfigure(World& w, const std::string& ns, F f) {
  World* prev = g_world; g_world = &w;
  auto& s = server<C>(w, ns); C c = s.config; f(c); s.request(c);
  g_world = prev;
}
}
#endif
