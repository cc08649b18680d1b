// Native runtime: replays concrete inputs through a harness compiled with the ordinary toolchain.
// usage: prog ENTRY FILE ; FILE has lines "in NAME TYPE VALUE", "obs NAME VALUE", "param NAME VALUE"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include "sx.h"

static std::map<std::string, std::string> in_;
static std::map<std::string, double> obs_;
static std::map<std::string, long> par_;
static std::map<std::string, int> ctr_, octr_;
static int fails = 0, mism = 0, obsn = 0;
static int clockMode = 0, clockN = 0;
static long clockLast = 0;
static std::vector<std::string> expectCover, gotCover;

static std::string uq(const char * n)
{
  std::string s = n;
  int k         = ctr_[s]++;
  return s + "#" + std::to_string(k);
}
static void fin()
{
  bool covOk = gotCover == expectCover;
  printf("SXDONE fails=%d mismatches=%d observed=%d cover=%d\n", fails, mism, obsn, (int)covOk);
  fflush(stdout);
  _Exit(fails ? 1 : 0);
}
extern "C" {
double sx_real(const char * n, double lo, double hi)
{
  auto it = in_.find(uq(n));
  if (it == in_.end()) return lo <= 0 && 0 <= hi ? 0 : lo;
  return strtod(it->second.c_str(), nullptr);
}
double sx_any(const char * n)
{
  auto it = in_.find(uq(n));
  return it == in_.end() ? 0 : strtod(it->second.c_str(), nullptr);
}
long sx_int(const char * n, long lo, long)
{
  auto it = in_.find(uq(n));
  return it == in_.end() ? lo : atol(it->second.c_str());
}
long sx_concrete(long v) { return v; }
long sx_param(const char * n, long def)
{
  auto it = par_.find(n);
  return it == par_.end() ? def : it->second;
}
int sx_symbolic() { return 0; }
void sx_clock(int m) { clockMode = m; }
static void fail(const char * m) { ++fails; printf("SXFAIL %s\n", m); fflush(stdout); }
void sx_assume(int c) { if (!c) { printf("SXASSUME\n"); fflush(stdout); _Exit(fails ? 1 : 7); } }
void sx_check(int c, const char * m) { if (!c) fail(m); }
void sx_check_le(double a, double b, double s, const char * m)
{
  if (!(a <= b + s)) { printf("  %.17g <= %.17g + %g\n", a, b, s); fail(m); }
}
void sx_check_eq(double a, double b, double t, const char * m)
{
  if (sx_symbolic()) return;
  if (a == b) return;
  if (!(a - b <= t && b - a <= t)) { printf("  %.17g vs %.17g (tol %g)\n", a, b, t); fail(m); }
}
void sx_check_same(double a, double b, const char * m)
{
  if (!(a == b || (a != a && b != b))) { printf("  %.17g vs %.17g\n", a, b); fail(m); }
}
int sx_finite(double a) { return std::isfinite(a); }
double sx_partial_(double, double) { abort(); }
void sx_observe(const char * n, double v)
{
  std::string k = std::string(n) + "#" + std::to_string(octr_[n]++);
  auto it       = obs_.find(k);
  if (it == obs_.end()) return;
  ++obsn;
  double e = it->second;
  double d = std::fabs(e - v), s = std::max(1.0, std::max(std::fabs(e), std::fabs(v)));
  if (!(e == v || (e != e && v != v) || d <= 1e-6 * s)) { ++mism; printf("SXMISMATCH %s expected %.17g got %.17g\n", k.c_str(), e, v); }
}
void sx_cover(const char * l) { gotCover.push_back(l); }
void sx_stop() { fin(); }
}
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
  if (clockMode == 0) return time_point(duration(1000000000));
  if (clockMode == 2) return time_point(duration(1000000000 + 1000L * ++clockN));
  auto it = in_.find("clock" + std::to_string(clockN++));
  if (it != in_.end()) clockLast = atol(it->second.c_str());
  return time_point(duration(clockLast));
}
}}
int main(int argc, char ** argv)
{
  std::ifstream f(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k, n, v, t;
    s >> k;
    if (k == "in") { s >> n >> t >> v; in_[n] = v; }
    else if (k == "obs") { s >> n >> v; obs_[n] = strtod(v.c_str(), nullptr); }
    else if (k == "param") { s >> n >> v; par_[n] = atol(v.c_str()); }
    else if (k == "cover") { std::getline(s >> std::ws, v); expectCover.push_back(v); }
  }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry\n"); return 9; }
  fn();
  fin();
}
