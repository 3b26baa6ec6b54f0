// Stateless model checker for sequential event-driven code (CHESS-style choice enumeration).
//
// A scenario is a function that drives the real code and calls mc::choose(n) wherever the environment has n possible
// answers (which event comes next, which value from a finite alphabet, ...).  The explorer runs the scenario once for
// EVERY sequence of answers (depth first), in 8 worker processes that own disjoint parts of the choice tree.  Crashes,
// sanitizer reports and hangs are attributed to the choice sequence that was being executed.  Every violation is
// replayed in a fresh process before it is reported.
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
static const int MAXCH = 512;
struct Slot {            // one per worker, shared with the parent
  volatile int len;
  volatile int ch[MAXCH];
  volatile int n[MAXCH];
  volatile int running;  // an execution is in progress
  volatile uint64_t execs, trans, finished, checks;
  volatile double maxdev;
};
struct Violation { std::string key, msg; };
struct Skip {};          // the rest of this subtree belongs to another worker
struct Prune {};         // this execution is cut off (not a behaviour of interest)

inline Slot* g_slot = nullptr;
inline std::vector<int> g_ch, g_n;
inline size_t g_pos = 0;
inline size_t g_prefix = 0;      // number of choices fixed in advance (replayed)
inline int g_worker = 0, g_nworkers = 1;
inline int g_sharddepth = 4;
inline bool g_owned = true;
inline bool g_verbose = false;
inline std::vector<std::string> g_trace;
inline std::unordered_set<uint64_t> g_states;
inline std::unordered_set<uint64_t> g_outcomes;
inline bool g_replaying = false;
inline std::string g_tier = "quick";
inline unsigned g_seed = 1;
inline std::vector<std::pair<std::string, std::string>> g_vio;   // non-throwing violations of this execution
inline uint64_t g_hash = 0;

inline bool thorough() { return g_tier == "thorough"; }
// quick/thorough bound
template<class T> T tier(T q, T t) { return thorough() ? t : q; }

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline uint64_t prefixHash(size_t d) { uint64_t h = 1234567; for (size_t i = 0; i < d && i < g_ch.size(); ++i) h = mix(h, g_ch[i] * 31 + i); return h; }

inline int choose(int n, const char* label = nullptr) {
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
  if (n == 1) return 0;
  int c;
  if (g_pos < g_ch.size()) {
    c = g_ch[g_pos];
    if (g_pos < g_n.size() && g_n[g_pos] != n && g_n[g_pos] != 0) { fprintf(stderr, "mc: divergence while replaying prefix (%d vs %d alternatives at %zu%s%s)\n", g_n[g_pos], n, g_pos, label ? ", " : "", label ? label : ""); abort(); }
    if (g_pos < g_n.size()) g_n[g_pos] = n;
    if (c < 0 || c >= n) { fprintf(stderr, "mc: choice %d out of range %d\n", c, n); abort(); }
  } else {
    c = 0; g_ch.push_back(0); g_n.push_back(n);
  }
  ++g_pos;
  if (g_slot && g_pos <= (size_t)MAXCH) { g_slot->ch[g_pos - 1] = c; g_slot->n[g_pos - 1] = n; g_slot->len = (int)g_pos; }
  if (!g_replaying && (int)g_pos == g_sharddepth && g_nworkers > 1) {
    g_owned = (int)(prefixHash(g_sharddepth) % g_nworkers) == g_worker;
    if (!g_owned) throw Skip();
  }
  return c;
}
template<class T> const T& pick(const std::vector<T>& v, const char* label = nullptr) { return v[choose((int)v.size(), label)]; }
inline void transition(uint64_t n = 1) { if (g_slot) g_slot->trans += n; }
inline void check(uint64_t n = 1) { if (g_slot) g_slot->checks += n; }
inline void state(uint64_t h) { g_states.insert(h); }
inline void outcome(uint64_t h) { g_outcomes.insert(h); }
inline void deviation(double d) { if (g_slot && d > g_slot->maxdev) g_slot->maxdev = d; }
inline void note(const char* fmt, ...) {
  char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  g_trace.push_back(b);
  if (g_verbose) { printf("  %s\n", b); fflush(stdout); }
}
inline std::string fmt(const char* f, ...) { char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
inline void report(const std::string& key, const std::string& msg) { g_vio.push_back({key, msg}); }   // report and go on
inline void require(bool ok, const std::string& key, const std::string& msg) { check(); if (!ok) fail(key, msg); }

struct Scenario { std::string name; std::function<void()> fn; int sharddepth = 4; int timeout_s = 20; int budget_s = 0; };
struct Found { std::string key, msg, scenario; std::vector<int> ch, n; std::vector<std::string> trace; uint64_t count = 0; bool confirmed = false; };

inline std::string esc(const std::string& s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
inline std::string vecs(const std::vector<int>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }

// Runs one execution with the choices in g_ch; returns false when it belongs to another worker.
inline bool runOne(const Scenario& sc, std::vector<std::pair<std::string, std::string>>& vio) {
  g_pos = 0; g_owned = true; g_trace.clear(); g_vio.clear();
  bool mine = true;
  if (g_slot) { g_slot->len = 0; g_slot->running = 1; }
  try { sc.fn(); }
  catch (const Skip&) { mine = false; }
  catch (const Prune&) { if (g_slot) g_slot->finished--; }
  catch (const Violation& v) { g_vio.push_back({v.key, v.msg}); }
  catch (const std::exception& e) { g_vio.push_back({"exception", std::string("uncaught exception: ") + e.what()}); }
  if (g_slot) g_slot->running = 0;
  if (mine && !g_replaying && g_nworkers > 1 && (int)g_pos < g_sharddepth) mine = (int)(prefixHash(g_pos) % g_nworkers) == g_worker;
  g_ch.resize(g_pos); g_n.resize(g_pos);
  vio = g_vio;
  return mine;
}
inline bool advance() {   // next choice sequence in depth-first order
  while (!g_ch.empty() && g_ch.back() + 1 >= g_n.back()) { g_ch.pop_back(); g_n.pop_back(); }
  if (g_ch.empty()) return false;
  ++g_ch.back(); return true;
}
inline void armTimer(int s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_REAL, &it, nullptr); }
inline double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

struct Options { std::string tier = "quick", out, work = ".", only, replay; int workers = 8; unsigned seed = 1; int maxvio = 40; bool list = false; };

inline void writeVio(FILE* f, const std::string& key, const std::string& msg) {
  fprintf(f, "K %s\nM %s\nC", esc(key).c_str(), esc(msg).c_str());
  for (int c : g_ch) fprintf(f, " %d", c); fprintf(f, "\nN");
  for (int c : g_n) fprintf(f, " %d", c); fprintf(f, "\n");
  for (auto& t : g_trace) fprintf(f, "T %s\n", esc(t).c_str());
  fprintf(f, "E\n"); fflush(f);
}
inline std::vector<int> ints(const std::string& s) { std::vector<int> r; std::istringstream is(s); int x; while (is >> x) r.push_back(x); return r; }

[[noreturn]] inline void worker(const Scenario& sc, int w, int nw, const std::string& base, double deadline, const std::vector<int>& startch, const std::vector<int>& startn, int maxvio) {
  g_worker = w; g_nworkers = nw; g_sharddepth = sc.sharddepth;
  g_ch = startch; g_n = startn;
  FILE* f = fopen((base + ".vio").c_str(), "a");
  std::map<std::string, uint64_t> cnt;
  uint64_t samples = 0; bool capped = false;
  FILE* fs = fopen((base + ".samples").c_str(), "a");
  for (;;) {
    armTimer(sc.timeout_s);
    std::vector<std::pair<std::string, std::string>> vio;
    bool mine = runOne(sc, vio);
    if (mine) {
      g_slot->execs++; g_slot->finished++;
      if (samples < 2 || (g_slot->execs & (g_slot->execs - 1)) == 0) {
        if (samples < 8) { samples++; fprintf(fs, "{\"scenario\":\"%s\",\"choices\":%s,\"events\":[", esc(sc.name).c_str(), vecs(g_ch).c_str());
          for (size_t i = 0; i < g_trace.size() && i < 40; ++i) fprintf(fs, "%s\"%s\"", i ? "," : "", esc(g_trace[i]).c_str());
          fprintf(fs, "]}\n"); }
      }
      for (auto& v : vio) { uint64_t& c = cnt[v.first]; if (c < 3 && cnt.size() <= (size_t)maxvio) writeVio(f, v.first, v.second); c++; }
      if (cnt.size() > (size_t)maxvio) { capped = true; break; }
    }
    if (!advance()) break;
    if (deadline > 0 && now() > deadline) { capped = true; break; }
  }
  armTimer(0);
  fclose(f); fclose(fs);
  FILE* g = fopen((base + ".cnt").c_str(), "a");
  for (auto& c : cnt) fprintf(g, "%llu %s\n", (unsigned long long)c.second, esc(c.first).c_str());
  fclose(g);
  FILE* h = fopen((base + ".hash").c_str(), "ab");
  for (uint64_t x : g_states) { uint8_t t = 0; fwrite(&t, 1, 1, h); fwrite(&x, 8, 1, h); }
  for (uint64_t x : g_outcomes) { uint8_t t = 1; fwrite(&t, 1, 1, h); fwrite(&x, 8, 1, h); }
  fclose(h);
  _exit(capped ? 7 : 0);
}

// Replays one choice sequence in a forked child; returns the key observed ("" = no violation).
inline std::string replayChild(const Scenario& sc, const std::vector<int>& ch, const std::string& base, int timeout, std::string* msg, std::vector<std::string>* trace, bool verbose = false) {
  std::string vf = base + ".replay";
  unlink(vf.c_str());
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    g_replaying = true; g_nworkers = 1; g_worker = 0; g_verbose = verbose;
    g_ch = ch; g_n.assign(ch.size(), 0);
    std::string ef = base + ".stderr";
    if (!verbose) { int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) dup2(fd, 2); }
    armTimer(timeout);
    FILE* f = fopen(vf.c_str(), "w");
    std::vector<std::pair<std::string, std::string>> vio;
    runOne(sc, vio);
    for (auto& v : vio) writeVio(f, v.first, v.second);
    fclose(f);
    _exit(vio.empty() ? 0 : 3);
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) {
    std::string k = WTERMSIG(st) == SIGALRM ? "hang" : fmt("crash:signal%d", WTERMSIG(st));
    if (msg) { *msg = k; std::ifstream is(base + ".stderr"); std::string l; int n = 0; while (std::getline(is, l) && n < 12) { if (l.find("ERROR") != std::string::npos || l.find("ssert") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("    #") != std::string::npos || l.find("Check failed") != std::string::npos) { *msg += " | " + l; ++n; } } }
    return k;
  }
  int rc = WEXITSTATUS(st);
  if (rc == 0) return "";
  if (rc == 3) {
    std::ifstream is(vf); std::string l, k;
    while (std::getline(is, l)) { if (l[0] == 'K' && k.empty()) k = l.substr(2); else if (l[0] == 'M' && msg) *msg = l.substr(2); else if (l[0] == 'T' && trace) trace->push_back(l.substr(2)); else if (l[0] == 'E') break; }
    return k;
  }
  if (msg) { *msg = fmt("exit code %d", rc); std::ifstream is(base + ".stderr"); std::string l; int n = 0; while (std::getline(is, l) && n < 14) { if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("    #") != std::string::npos || l.find("mc:") != std::string::npos) { *msg += " | " + l; ++n; } } }
  return rc == 99 ? "sanitizer" : fmt("crash:exit%d", rc);
}

inline int mainLoop(int argc, char** argv, std::vector<Scenario> scs) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--tier") o.tier = nx(); else if (a == "--out") o.out = nx(); else if (a == "--work") o.work = nx();
    else if (a == "--only") o.only = nx(); else if (a == "--replay") o.replay = nx(); else if (a == "--workers") o.workers = atoi(nx().c_str());
    else if (a == "--seed") o.seed = atoi(nx().c_str()); else if (a == "--list") o.list = true;
  }
  g_tier = o.tier; g_seed = o.seed;
  if (o.list) { for (auto& s : scs) printf("%s\n", s.name.c_str()); return 0; }
  if (!o.replay.empty()) {   // "scenario:1,2,3"
    size_t c = o.replay.rfind(':'); std::string nm = o.replay.substr(0, c), seq = o.replay.substr(c + 1);
    for (auto& ch : seq) if (ch == ',') ch = ' ';
    for (auto& s : scs) if (s.name == nm) {
      std::string msg; g_slot = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::string k = replayChild(s, ints(seq), o.work + "/replay", 60, &msg, nullptr, true);
      printf("replay result: %s\n%s\n", k.empty() ? "no violation" : k.c_str(), msg.c_str());
      return k.empty() ? 0 : 1;
    }
    fprintf(stderr, "no scenario %s\n", nm.c_str()); return 2;
  }
  std::map<std::string, Found> found;
  std::vector<std::string> samples, perscen;
  uint64_t execs = 0, trans = 0, checks = 0, states = 0, outcomes = 0; double maxdev = 0; bool exhaustive = true;
  double t00 = now(); bool hung = false;
  for (auto& sc : scs) {
    if (hung) { exhaustive = false; break; }      // a confirmed hang: the rest would only wait for time-outs
    if (!o.only.empty()) { bool hit = false; std::istringstream is(o.only); std::string pat; while (std::getline(is, pat, ',')) if (sc.name == pat || (pat.size() && pat.back() == '*' && sc.name.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0)) hit = true; if (!hit) continue; }
    double t0 = now();
    int nw = o.workers;
    Slot* slots = (Slot*)mmap(0, sizeof(Slot) * (nw + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double deadline = sc.budget_s > 0 ? t0 + sc.budget_s : 0;
    std::map<pid_t, int> pids; std::vector<int> restarts(nw, 0);
    auto base = [&](int w) { return o.work + "/" + sc.name + "." + std::to_string(w); };
    auto start = [&](int w, const std::vector<int>& ch, const std::vector<int>& n) {
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        g_slot = &slots[w];
        int fd = open((base(w) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); }
        worker(sc, w, nw, base(w), deadline, ch, n, o.maxvio);
      }
      pids[p] = w;
    };
    for (int w = 0; w < nw; ++w) { for (const char* e : {".vio", ".cnt", ".hash", ".samples"}) unlink((base(w) + e).c_str()); start(w, {}, {}); }
    bool complete = true, stopped = false; int nhang = 0;
    std::vector<Found> crashes;
    while (!pids.empty()) {
      int st; pid_t p = wait(&st); if (p < 0) break;
      if (!pids.count(p)) continue;
      int w = pids[p]; pids.erase(p);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { complete = false; continue; }
      if (stopped) continue;
      // died inside an execution
      std::vector<int> ch, n; for (int i = 0; i < slots[w].len; ++i) { ch.push_back((int)slots[w].ch[i]); n.push_back((int)slots[w].n[i]); }
      Found f; f.scenario = sc.name; f.ch = ch; f.n = n; f.count = 1;
      f.key = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : fmt("crash:signal%d", WTERMSIG(st))) : (WEXITSTATUS(st) == 99 ? "sanitizer" : fmt("crash:exit%d", WEXITSTATUS(st)));
      crashes.push_back(f);
      slots[w].execs++;
      if (f.key == "hang" && ++nhang >= 8) { stopped = true; complete = false; for (auto& q : pids) kill(q.first, SIGKILL); continue; }
      // continue after the crashed execution
      while (!ch.empty() && ch.back() + 1 >= n.back()) { ch.pop_back(); n.pop_back(); }
      if (ch.empty()) continue;
      if (++restarts[w] > 12) { complete = false; continue; }
      ++ch.back();
      start(w, ch, n);
    }
    uint64_t se = 0, stt = 0, sck = 0; double sd = 0;
    for (int w = 0; w < nw; ++w) { se += slots[w].execs; stt += slots[w].trans; sck += slots[w].checks; sd = std::max(sd, (double)slots[w].maxdev); }
    // gather
    std::unordered_set<uint64_t> S, O; std::map<std::string, uint64_t> cnt; std::map<std::string, std::vector<Found>> byk;
    for (int w = 0; w < nw; ++w) {
      std::ifstream is(base(w) + ".vio"); std::string l; Found f;
      while (std::getline(is, l)) {
        if (l.empty()) continue;
        std::string r = l.size() > 2 ? l.substr(2) : "";
        switch (l[0]) { case 'K': f = Found(); f.key = r; break; case 'M': f.msg = r; break; case 'C': f.ch = ints(l.substr(1)); break; case 'N': f.n = ints(l.substr(1)); break; case 'T': f.trace.push_back(r); break; case 'E': f.scenario = sc.name; byk[f.key].push_back(f); break; }
      }
      std::ifstream ic(base(w) + ".cnt"); while (std::getline(ic, l)) { size_t q = l.find(' '); cnt[l.substr(q + 1)] += strtoull(l.c_str(), 0, 10); }
      FILE* h = fopen((base(w) + ".hash").c_str(), "rb");
      if (h) { uint8_t t; uint64_t x; while (fread(&t, 1, 1, h) == 1 && fread(&x, 8, 1, h) == 1) (t ? O : S).insert(x); fclose(h); }
      std::ifstream isam(base(w) + ".samples"); int k = 0; while (std::getline(isam, l) && k < 2) { if (samples.size() < 24) samples.push_back(l); ++k; }
      for (const char* e : {".vio", ".cnt", ".hash", ".samples", ".err"}) unlink((base(w) + e).c_str());
    }
    std::sort(crashes.begin(), crashes.end(), [](const Found& a, const Found& b) { if (a.ch.size() != b.ch.size()) return a.ch.size() < b.ch.size(); return a.ch < b.ch; });
    std::map<std::string, int> tried, sure;
    for (auto& c : crashes) {
      std::string pre = c.key; if (sure[pre] >= (pre == "hang" ? 1 : 3) || tried[pre]++ >= 6) continue;
      std::string msg; std::vector<std::string> tr;
      g_slot = &slots[nw];
      std::string k = replayChild(sc, c.ch, o.work + "/rp", c.key == "hang" ? 3 * sc.timeout_s : sc.timeout_s * 2, &msg, &tr);
      g_slot = nullptr;
      if (k.empty()) continue;   // not reproducible: never reported
      sure[pre]++; hung = hung || k == "hang";
      c.key = esc(sc.name + ":" + k); c.msg = esc(msg); c.confirmed = true; cnt[c.key]++; byk[c.key].push_back(c);
    }
    for (auto& kv : byk) {
      std::sort(kv.second.begin(), kv.second.end(), [](const Found& a, const Found& b) { if (a.ch.size() != b.ch.size()) return a.ch.size() < b.ch.size(); return a.ch < b.ch; });
      Found f = kv.second.front();
      if (!f.confirmed) {
        g_slot = &slots[nw];
        std::string msg; std::vector<std::string> tr;
        std::string k = replayChild(sc, f.ch, o.work + "/rp", 2 * sc.timeout_s, &msg, &tr);
        g_slot = nullptr;
        if (k.empty()) { fprintf(stderr, "mc: violation %s of %s did not reproduce, dropped\n", f.key.c_str(), sc.name.c_str()); continue; }
        f.confirmed = true;
      }
      f.count = cnt[kv.first];
      if (!found.count(kv.first) || found[kv.first].ch.size() > f.ch.size()) { uint64_t c = found.count(kv.first) ? found[kv.first].count : 0; f.count += c; found[kv.first] = f; }
      else found[kv.first].count += f.count;
    }
    execs += se; trans += stt; checks += sck; states += S.size(); outcomes += O.size(); maxdev = std::max(maxdev, sd); exhaustive = exhaustive && complete;
    perscen.push_back(fmt("{\"scenario\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"comparisons\":%llu,\"distinct_states\":%llu,\"distinct_outcomes\":%llu,\"max_deviation\":%.3g,\"exhaustive\":%s,\"seconds\":%.1f}",
      esc(sc.name).c_str(), (unsigned long long)se, (unsigned long long)stt, (unsigned long long)sck, (unsigned long long)S.size(), (unsigned long long)O.size(), sd, complete ? "true" : "false", now() - t0));
    fprintf(stderr, "%s\n", perscen.back().c_str());
    munmap(slots, sizeof(Slot) * (nw + 1));
  }
  FILE* f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
  fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"comparisons\":%llu,\"states\":%llu,\"outcomes\":%llu,\"max_deviation\":%.3g,\"exhaustive\":%s,\"wall_s\":%.2f,\n\"scenarios\":[",
    (unsigned long long)execs, (unsigned long long)trans, (unsigned long long)checks, (unsigned long long)states, (unsigned long long)outcomes, maxdev, exhaustive ? "true" : "false", now() - t00);
  for (size_t i = 0; i < perscen.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", perscen[i].c_str());
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", samples[i].c_str());
  fprintf(f, "],\n\"violations\":[");
  bool first = true;
  for (auto& kv : found) {
    auto& v = kv.second;
    fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"scenario\":\"%s\",\"choices\":%s,\"count\":%llu,\"trace\":[", first ? "" : ",\n", v.key.c_str(), v.msg.c_str(), esc(v.scenario).c_str(), vecs(v.ch).c_str(), (unsigned long long)v.count);
    for (size_t i = 0; i < v.trace.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", v.trace[i].c_str());
    fprintf(f, "]}"); first = false;
  }
  fprintf(f, "]}\n"); if (!o.out.empty()) fclose(f);
  return 0;
}
}
#endif
