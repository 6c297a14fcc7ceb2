// Concrete implementation of the harness API: the same harness, compiled with the
// ordinary compiler against the ordinary (uninstrumented) code, fed with the
// solver's values. Usage: <exe> <values file>; each line "d <hexfloat>" or "i <int>".
#include "stubs.inc"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <string>
#include <vector>
#include "vp.h"
extern "C" { int vp_draws_on = 0; }
static std::vector<std::string> lines;
static size_t pos = 0;
static int tier = 0;
static void mismatch(const char* n) { printf("REPLAY-MISMATCH %s\n", n); fflush(stdout); _Exit(5); }
static std::string next(char k, const char* name) {
  if (pos >= lines.size()) return "";
  std::string l = lines[pos++];
  if (l.empty() || l[0] != k) mismatch(name);
  return l.substr(2);
}
extern "C" {
double vp_sym_double(const char* n, double lo, double hi, int) { std::string s = next('d', n); double v = s.empty() ? lo : strtod(s.c_str(), 0); printf("INPUT %s = %.17g\n", n, v); if (!(v >= lo && v <= hi)) mismatch(n); return v; }
int64_t vp_sym_int(const char* n, int64_t lo, int64_t hi) { std::string s = next('i', n); int64_t v = s.empty() ? lo : strtoll(s.c_str(), 0, 10); printf("INPUT %s = %lld\n", n, (long long)v); if (v < lo || v > hi) mismatch(n); return v; }
int64_t vp_sym_pin(int64_t v) { return v; }
void vp_sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _Exit(4); } }
void vp_sym_assert(bool c, const char* l) { if (!c) { printf("REPLAY-ASSERT-FAILED %s\n", l); fflush(stdout); _Exit(3); } }
void vp_sym_reach(const char* l) { printf("REACH %s\n", l); }
void vp_sym_note(const char* n, double v) { printf("NOTE %s = %.17g\n", n, v); }
int vp_sym_tier() { return tier; }
}
int main(int argc, char** argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  if (argc > 1) { std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) { if (l.compare(0, 5, "tier ") == 0) tier = atoi(l.c_str() + 5); else if (!l.empty()) lines.push_back(l); } }
  try { vp_harness(); }
  catch (std::exception& e) { printf("REPLAY-ASSERT-FAILED uncaught exception: %s\n", e.what()); fflush(stdout); _Exit(3); }
  printf("REPLAY-OK\n"); fflush(stdout);
  _Exit(0);
}
