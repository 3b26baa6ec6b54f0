// C15: every operation sequence (bounded depth, colliding times) on the real SortedContainer against an ordered list.
#include <ros/ros.h>
#include <msf_core/msf_sortedContainer.h>
#include "mc.hpp"
struct Obj { double time; int id; Obj() : time(0), id(-1) {} Obj(double t, int i) : time(t), id(i) {} };
struct BadObj : Obj { BadObj() {} };
typedef msf_core::SortedContainer<Obj, BadObj> C;
typedef boost::shared_ptr<Obj> P;
struct Model {               // the specification: an ordered list of (time, id)
  std::vector<std::pair<double, int>> v;
  int find(double t) const { for (size_t i = 0; i < v.size(); ++i) if (v[i].first == t) return (int)i; return -1; }
  int before(double t) const { int r = -1; for (size_t i = 0; i < v.size(); ++i) if (v[i].first < t) r = (int)i; return r; }
  int atOrAfter(double t) const { for (size_t i = 0; i < v.size(); ++i) if (v[i].first >= t) return (int)i; return -1; }
  int after(double t) const { for (size_t i = 0; i < v.size(); ++i) if (v[i].first > t) return (int)i; return -1; }
  int closest(double t) const { int r = -1; double d = 1e300; for (size_t i = 0; i < v.size(); ++i) if (std::fabs(v[i].first - t) < d) { d = std::fabs(v[i].first - t); r = (int)i; } return r; }
  int insert(double t, int id) { int i = find(t); if (i >= 0) return v[i].second; v.push_back({t, id}); std::sort(v.begin(), v.end()); return id; }
};
static std::string show(const Model& m) { std::string s = "{"; for (auto& e : m.v) s += mc::fmt(" %g", e.first); return s + " }"; }
static void checkAll(C& c, const Model& m, const std::string& op) {
  auto id = [&](const P& p) { return p ? p->id : -99; };
  auto mid = [&](int i) { return i < 0 ? -1 : m.v[i].second; };
  auto exp = [&](const char* q, double t, const P& got, int want) {
    mc::check();
    bool ok = want < 0 ? (got && got->time == msf_core::constants::INVALID_TIME) : (got && got->id == m.v[want].second && got->time == m.v[want].first);
    if (!ok) mc::fail(std::string("query-") + q, mc::fmt("after %s on %s: %s(%g) returned object %d, expected %d", op.c_str(), show(m).c_str(), q, t, id(got), mid(want)));
  };
  auto expIt = [&](const char* q, double t, C::iterator_T it, int want) {
    mc::check();
    bool invalid = it == c.GetIteratorEnd() || (m.v.size() && it == c.GetIteratorBeforeBegin());
    if (want < 0) { if (!invalid) mc::fail(std::string("query-") + q, mc::fmt("after %s on %s: %s(%g) returned an element, expected none", op.c_str(), show(m).c_str(), q, t)); return; }
    if (invalid || it->second->id != m.v[want].second || it->first != m.v[want].first || it->second->time != m.v[want].first)
      mc::fail(std::string("query-") + q, mc::fmt("after %s on %s: %s(%g) wrong element", op.c_str(), show(m).c_str(), q, t));
  };
  if (c.Size() != m.v.size()) mc::fail("query-Size", mc::fmt("after %s on %s: Size %zu expected %zu", op.c_str(), show(m).c_str(), (size_t)c.Size(), m.v.size()));
  exp("GetFirst", 0, c.GetFirst(), m.v.empty() ? -1 : 0);
  exp("GetLast", 0, c.GetLast(), (int)m.v.size() - 1);
  // forward iteration visits exactly the list
  size_t k = 0;
  for (C::iterator_T it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it, ++k)
    if (k >= m.v.size() || it->second->id != m.v[k].second || it->second->time != m.v[k].first) mc::fail("iteration", mc::fmt("after %s on %s: iteration differs at %zu", op.c_str(), show(m).c_str(), k));
  if (k != m.v.size()) mc::fail("iteration", "iteration too short");
  if (m.v.size()) {   // before-begin is not an element
    mc::check();
    C::iterator_T bb = c.GetIteratorBeforeBegin();
    for (C::iterator_T it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it)
      if (it == bb) mc::fail("before-begin-is-element", mc::fmt("after %s on %s: GetIteratorBeforeBegin() equals an element", op.c_str(), show(m).c_str()));
  }
  std::set<double> ts = {-5, 0.25, 100};
  for (auto& e : m.v) { ts.insert(e.first); ts.insert(e.first - 0.25); ts.insert(e.first + 0.25); ts.insert(e.first + 0.5); }
  for (size_t i = 0; i + 1 < m.v.size(); ++i) ts.insert((m.v[i].first + m.v[i + 1].first) / 2);   // exact ties
  for (double t : ts) {
    int b = m.before(t);
    exp("GetValueAt", t, c.GetValueAt(t), m.find(t));
    exp("GetClosestAfter", t, c.GetClosestAfter(t), m.after(t));
    exp("GetClosestBefore", t, c.GetClosestBefore(t), m.v.empty() ? -1 : (b < 0 ? 0 : b));   // documented fallback: the first object
    exp("GetClosest", t, c.GetClosest(t), m.closest(t));
    expIt("GetIteratorClosestAfter", t, c.GetIteratorClosestAfter(t), m.after(t));
    expIt("GetIteratorClosestBefore", t, c.GetIteratorClosestBefore(t), b);
    expIt("GetIteratorClosest", t, c.GetIteratorClosest(t), m.closest(t));
    expIt("GetIteratorAtValue", t, c.GetIteratorAtValue(t, false), m.atOrAfter(t));
    expIt("GetIteratorAtValue(object)", t, c.GetIteratorAtValue(P(new Obj(t, 7)), false), m.atOrAfter(t));
  }
  std::istringstream is(c.EchoBufferContentTimes()); double x; size_t n = 0;
  while (is >> x) { if (n >= m.v.size() || std::fabs(x - m.v[n].first) > 1e-6) mc::fail("echo", "EchoBufferContentTimes differs"); ++n; }
  if (n != m.v.size()) mc::fail("echo", "EchoBufferContentTimes differs in length");
  if (c.GetInvalid()->time != msf_core::constants::INVALID_TIME) mc::fail("invalid-object-changed", "the invalid marker object was modified");
}
static uint64_t hashOf(const Model& m) { uint64_t h = 7; for (auto& e : m.v) { uint64_t b; memcpy(&b, &e.first, 8); h = mc::mix(h, b); } return h; }
static void run(const std::vector<double>& ins, const std::vector<double>& upd, const std::vector<double>& ages, int depth) {
  C c; Model m; int next = 0; std::vector<std::weak_ptr<Obj>> dummy;
  checkAll(c, m, "construction");
  for (int d = 0; d < depth; ++d) {
    int nI = ins.size(), nU = (int)(m.v.size() + 1) * (int)upd.size(), nA = ages.size();
    int k = mc::choose(nI + nU + nA + 1, "op");
    std::string op;
    if (k < nI) {
      double t = ins[k]; op = mc::fmt("Insert(%g)", t); mc::note("%s", op.c_str());
      P o(new Obj(t, next)); C::iterator_T it = c.Insert(o); int want = m.insert(t, next); ++next;
      if (it->second->id != want) mc::fail("Insert-result", op + " returned the wrong element");
    } else if (k < nI + nU) {
      int j = (k - nI) / upd.size(); double tn = upd[(k - nI) % upd.size()];
      double to = j < (int)m.v.size() ? m.v[j].first : 77.5;   // 77.5: never present
      op = mc::fmt("UpdateTime(%g -> %g)", to, tn); mc::note("%s", op.c_str());
      int pre = m.closest(to); int preid = pre < 0 ? -1 : m.v[pre].second;
      P r = c.UpdateTime(to, tn); int want;
      if (j < (int)m.v.size()) { int id = m.v[j].second; m.v.erase(m.v.begin() + j); want = m.insert(tn, id); }
      else want = preid;
      if (want >= 0 ? r->id != want : r->time != msf_core::constants::INVALID_TIME) mc::fail("UpdateTime-result", op + " returned the wrong element on " + show(m));
    } else if (k < nI + nU + nA) {
      double age = ages[k - nI - nU]; op = mc::fmt("ClearOlderThan(%g)", age); mc::note("%s on %s", op.c_str(), show(m).c_str());
      Model before = m;
      c.ClearOlderThan(age);
      // what is left: a suffix holding everything not older than `age` and at most one older object
      std::vector<std::pair<double, int>> left;
      for (C::iterator_T it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it) left.push_back({it->first, it->second->id});
      if (before.v.size()) {
        double lim = before.v.back().first - age; size_t older = 0, keep = 0, olderBefore = 0;
        for (auto& e : before.v) { if (e.first >= lim) keep++; else olderBefore++; }
        for (auto& e : left) if (e.first < lim) older++;
        bool suffix = left.size() <= before.v.size() && std::equal(left.begin(), left.end(), before.v.end() - left.size());
        if (!suffix) mc::fail("clean-up-not-suffix", op + " on " + show(before));
        if (left.size() - older != keep) mc::fail("clean-up-removed-young", op + " on " + show(before) + " removed an object younger than the age");
        if (older > 1) mc::fail("clean-up-kept-old", op + " on " + show(before) + " kept more than one object older than the age");
      } else if (left.size()) mc::fail("clean-up-not-suffix", op);
      m.v = left;
    } else { op = "Clear"; mc::note("Clear"); c.Clear(); m.v.clear(); }
    mc::transition(); mc::state(hashOf(m));
    checkAll(c, m, op);
  }
  mc::outcome(hashOf(m));
}
// Long histories of one kind, to reach deep tree shapes of the ordered map: every insertion order of n objects.
static void perms(int n) {
  C c; Model m; std::vector<double> left; for (int i = 0; i < n; ++i) left.push_back(1 + i);
  for (int d = 0; d < n; ++d) { int k = mc::choose((int)left.size()); double t = left[k]; left.erase(left.begin() + k); c.Insert(P(new Obj(t, d))); m.insert(t, d); mc::transition(); mc::note("Insert(%g)", t); mc::state(hashOf(m)); checkAll(c, m, "Insert"); }
  double ages[] = {0.5, 1, 2.5, 3, 60}; double age = ages[mc::choose(5)]; mc::note("ClearOlderThan(%g)", age);
  c.ClearOlderThan(age); double newest = m.v.back().first;
  Model r; for (C::iterator_T it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it) r.v.push_back({it->first, it->second->id});
  size_t keep = 0, older = 0; for (auto& e : m.v) keep += e.first >= newest - age; for (auto& e : r.v) older += e.first < newest - age;
  if (r.v.size() - older != keep || older > 1) mc::fail("clean-up-wrong", mc::fmt("age %g of %d", age, n));
  checkAll(c, r, "ClearOlderThan");
}
int main(int argc, char** argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"ops", [] { run({1, 2, 3, 4, 10}, {0.5, 2.5, 3, 11}, {0, 1, 2.5, 60}, mc::tier(4, 5)); }, 2});
  s.push_back({"ops-deep", [] { run({1, 2, 3}, {2, 4}, {1.5}, mc::tier(5, 7)); }, 2});
  s.push_back({"ops-epoch", [] { run({1.4e9, 1.4e9 + 0.005, 1.4e9 + 0.01, 1.4e9 + 61}, {1.4e9 + 0.0075}, {60, 0.006}, mc::tier(4, 5)); }, 2});
  s.push_back({"permutations", [] { perms(mc::tier(6, 8)); }, 3});
  return mc::mainLoop(argc, argv, s);
}
