// common part of the native replay / bounded stand-in harnesses
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fstream>
#include <unistd.h>
namespace H {
inline std::mt19937_64 rng;
inline std::chrono::steady_clock::time_point t0;
inline double budget = 10;
inline long cases = 0;
inline std::map<std::string, int> failed;
inline auto ri(long a, long b) -> long { return a + (long)(rng() % (uint64_t)(b - a + 1)); }
inline auto rd(double a, double b) -> double { return a + (b - a) * (double)(rng() >> 11) / 9007199254740992.0; }
inline auto chance(double p) -> bool { return rd(0, 1) < p; }
template <class T> auto pick(const std::vector<T> &v) -> T { return v[rng() % v.size()]; }
inline auto rstr(int maxlen, const char *alpha = nullptr) -> std::string {
  std::string s; int n = (int)ri(0, maxlen);
  static const std::string def = "abcXYZ 019_.-/\"\\";
  std::string al = alpha ? alpha : def;
  for (int i = 0; i < n; i++) s += al[rng() % al.size()];
  return s;
}
inline auto elapsed() -> double { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline auto more() -> bool { return elapsed() < budget; }
inline void init(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
  budget = argc > 2 ? atof(argv[2]) : 5;
  rng.seed(seed * 0x9E3779B97F4A7C15ull + 12345);
  t0 = std::chrono::steady_clock::now();
  // the library prints diagnostics; keep the protocol channel clean
  static std::ofstream *nul = nullptr; (void)nul;
}
inline FILE *&cur() { static FILE *f = nullptr; return f; }
// what is being tried right now (read back when the process dies)
inline void at(const std::string &key, const std::string &what) {
  if (!cur()) cur() = fopen("current", "w+");
  if (!cur()) return;
  rewind(cur());
  fputs((key + " " + what + "\n").c_str(), cur());
  fflush(cur());
  if (ftruncate(fileno(cur()), ftell(cur()))) {}
}
inline void fail(const std::string &key, const std::string &what) {
  if (failed[key]++ == 0) {
    std::string w = what; for (auto &c : w) if (c == '\n' || c == '\r') c = ' ';
    fprintf(stdout, "FAIL %s %s\n", key.c_str(), w.substr(0, 3000).c_str());
    fflush(stdout);
  }
}
#define CHECK(cond, key, what) do { if (!(cond)) { std::ostringstream os_; os_ << what; H::fail(key, os_.str()); } } while (0)
inline auto finish() -> int { fprintf(stdout, "CASES %ld\n", cases); fflush(stdout); return 0; }
} // namespace H
