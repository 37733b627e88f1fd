// Common runtime-monitor plumbing: deterministic cases, JSON-lines event log, oracle reports.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <iostream>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>

namespace vk {

struct Rng {
  uint64_t s;
  static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  explicit Rng(uint64_t a = 0, uint64_t b = 0, uint64_t c = 0) { s = mix(mix(mix(a) ^ b) ^ c); }
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int irange(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool chance(double p) { return u01() < p; }
  double normal() { double u = u01(), v = u01(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  double sgn() { return chance(0.5) ? 1.0 : -1.0; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]); }
};

inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o;
}
inline std::string num(double v) { char b[64]; if (std::isfinite(v)) snprintf(b, 64, "%.9g", v); else snprintf(b, 64, "\"%s\"", std::isnan(v) ? "nan" : (v > 0 ? "inf" : "-inf")); return b; }

// Event log. One line per event, written with a single write(2) so that a crash loses nothing.
struct Log {
  int fd = -1;
  void line(const std::string& s) { std::string t = s + "\n"; if (fd < 0) return; ssize_t r = ::write(fd, t.data(), t.size()); (void)r; }
};

struct Case {
  Log* log; uint64_t seed; long id; std::string tier; Rng rng;
  int nviol = 0; std::string sig; bool nontrivial = false; std::string sample;
  std::map<std::string, long> cnt; std::map<std::string, double> mx;
  std::string first_detail;
  void count(const std::string& k, long n = 1) { cnt[k] += n; }
  void peak(const std::string& k, double v) { auto it = mx.find(k); if (it == mx.end() || !(v <= it->second)) mx[k] = v; }
  // The oracle's report: `key` names the violated clause, `detail` the observed values.
  void violate(const std::string& key, const std::string& detail) {
    ++nviol; if (nviol > 5) return;
    log->line("{\"ev\":\"viol\",\"case\":" + std::to_string(id) + ",\"key\":\"" + esc(key) + "\",\"detail\":\"" + esc(detail) + "\"}");
  }
  // value must be <= tol (NaN counts as violation)
  bool check(const std::string& key, double value, double tol, const std::string& extra = "") {
    count("obs:" + key); peak(key, tol > 0 ? value / tol : value);
    if (!(value <= tol)) { violate(key, "value=" + num(value) + " tol=" + num(tol) + " " + extra); return false; }
    return true;
  }
  bool require(const std::string& key, bool ok, const std::string& extra = "") {
    count("obs:" + key); if (!ok) violate(key, extra); return ok;
  }
};

inline std::string catS(std::ostringstream& o) { return o.str(); }
#define VKS(expr) ([&]() { std::ostringstream vk_o_; vk_o_.precision(10); vk_o_ << expr; return vk_o_.str(); }())

struct Args { uint64_t seed = 1; long first = 0, stride = 1, count = 10; std::string out, tier = "quick", mode; int argc; char** argv; };

// Runs cases first, first+stride, ... < count. Case k is a function of (seed,k) only.
inline int run(int argc, char** argv, const char* name, const std::function<void(Case&)>& fn, const std::function<void(Args&)>& init = nullptr) {
  Args a;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--first") a.first = atol(v.c_str());
    else if (k == "--stride") a.stride = atol(v.c_str());
    else if (k == "--count") a.count = atol(v.c_str());
    else if (k == "--out") a.out = v;
    else if (k == "--tier") a.tier = v;
    else if (k == "--mode") a.mode = v;
  }
  Log log;
  log.fd = a.out.empty() ? dup(1) : ::open(a.out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  // the code under test chats on stdout/stderr; keep that out of the log
  if (!a.out.empty() && !getenv("VK_CHAT")) { int dn = ::open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); ::close(dn); } std::cerr.setstate(std::ios_base::failbit); }
  if (init) init(a);
  uint64_t h = 1469598103934665603ull; for (const char* p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  for (long k = a.first; k < a.count; k += a.stride) {
    log.line("{\"ev\":\"begin\",\"case\":" + std::to_string(k) + "}");
    Case c; c.log = &log; c.seed = a.seed; c.id = k; c.tier = a.tier; c.rng = Rng(a.seed, h, (uint64_t)k);
    fn(c);
    std::string s = "{\"ev\":\"end\",\"case\":" + std::to_string(k) + ",\"sig\":\"" + esc(c.sig) + "\",\"nt\":" + (c.nontrivial ? "true" : "false") + ",\"viol\":" + std::to_string(c.nviol);
    s += ",\"cnt\":{"; bool f = true; for (auto& p : c.cnt) { s += (f ? "\"" : ",\"") + esc(p.first) + "\":" + std::to_string(p.second); f = false; } s += "}";
    s += ",\"mx\":{"; f = true; for (auto& p : c.mx) { s += (f ? "\"" : ",\"") + esc(p.first) + "\":" + num(p.second); f = false; } s += "}";
    if (!c.sample.empty()) s += ",\"sample\":\"" + esc(c.sample) + "\"";
    log.line(s + "}");
  }
  log.line("{\"ev\":\"done\"}");
  return 0;
}
}  // namespace vk
