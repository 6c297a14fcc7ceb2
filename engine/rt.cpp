#include <boost/math/special_functions/next.hpp>
#include <sys/mman.h>
// Runtime of the symbolic executor: expression DAG, shadow memory, path
// condition, Z3 queries, and the coordinator that explores every path.
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint32_t u32;
typedef int64_t i64;
typedef uint64_t u64;
typedef __int128 i128;

EXPORT u32 __vp_args[48];
EXPORT void* __vp_argptrs[48];
EXPORT void* __vp_callee;
EXPORT u32 __vp_ret[16];
EXPORT void* __vp_rettag;
u32 __vp_args[48];
void* __vp_argptrs[48];
void* __vp_callee;
u32 __vp_ret[16];
void* __vp_rettag;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// ------------------------------------------------------------------ nodes
enum Sort : uint8_t { BOOL, INT, REAL };
enum Op : uint8_t {
  CONST, INPUT,
  // real
  RADD, RSUB, RMUL, RDIV, RNEG, RROUND, RABS, RTRUNCI /*real integer part*/, RFLOOR, I2R, RSQRT, RUF, RFDIST,
  // int
  IADD, ISUB, IMUL, IDIVE /*euclid div by positive*/, IMODE, IWRAP, INEG, R2I_FLOOR, IBV,
  // bool
  BNOT, BAND, BOR, BXOR, LT, LE, EQ, ITE
};
struct Node {
  Op op; Sort sort; uint8_t width; uint8_t aux;
  u32 a, b, c;
  union { i64 iv; double dv; };  // concrete value on this run (bool: 0/1)
  i128 ilo, ihi;                 // INT interval
  double lo, hi;                 // REAL interval
  int g;                         // REAL: value is a multiple of 2^g
  u32 in;                        // INPUT index
  u64 sh;                        // structural hash (stable across runs)
  void* z;
};
static std::vector<Node> N;
struct Key {
  u64 w[3];
  bool operator==(const Key& o) const { return !memcmp(w, o.w, sizeof w); }
};
struct KeyH { size_t operator()(const Key& k) const { u64 h = k.w[0] * 0x9E3779B97F4A7C15ull; h ^= (h >> 29); h = (h + k.w[1]) * 0xBF58476D1CE4E5B9ull; h ^= (h >> 32); h = (h + k.w[2]) * 0x94D049BB133111EBull; return h ^ (h >> 31); } };
static std::unordered_map<Key, u32, KeyH> H;

static bool active = false;    // symbolic inputs exist and we are in a child
static bool inrt = false;      // inside the runtime (hooks ignored)
struct Guard { Guard() { inrt = true; } ~Guard() { inrt = false; } };
#define ENTER0 if (!active || inrt) return; Guard guard_;
#define ENTER(r) if (!active || inrt) return r; Guard guard_;

struct Input { std::string name; bool isd; double lo, hi; i64 ilo, ihi; int grid; double dv; i64 iv; u32 node; };
static std::vector<Input> inputs;

// ------------------------------------------------------------------ stats
struct Stats {
  u64 branches = 0, folded = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, asserts_sym = 0, asserts_conc = 0, assert_proved = 0, assert_unknown = 0,
      phase2 = 0, rounds = 0, assume_kill = 0, conc_int = 0, conc_real = 0, stale = 0, offgrid = 0, overflow = 0, diverged = 0, nl = 0;
  double solver = 0, maxq = 0;
} st;
static std::map<std::string, u64> inconclusive;   // reason -> count
static std::map<std::string, u64> reached;
static std::map<std::string, u64> assertlab;
static std::map<std::string, u64> extcalls;
static std::unordered_set<void*> sites;
static inline void site(void* ra) { sites.insert(ra); }

// ------------------------------------------------------------------ helpers
static int lsbexp(double x) {
  if (x == 0) return 5000;
  int e; double m = frexp(fabs(x), &e);
  u64 k = (u64)ldexp(m, 53);
  return e - 53 + __builtin_ctzll(k);
}
static double dn(double x) { return std::isfinite(x) ? nextafter(x, -INFINITY) : x; }
static double up(double x) { return std::isfinite(x) ? nextafter(x, INFINITY) : x; }

static u32 mk(Node n) {
  Key k;
  k.w[0] = (u64)n.op | ((u64)n.sort << 8) | ((u64)n.width << 16) | ((u64)n.aux << 24) | ((u64)n.a << 32);
  k.w[1] = (u64)n.b | ((u64)n.c << 32);
  k.w[2] = n.op == CONST ? (u64)n.iv : n.op == INPUT ? n.in : 0;
  auto it = H.find(k);
  if (it != H.end()) return it->second;
  n.z = nullptr;
  {
    u64 h = 0x1234567 ^ (k.w[0] & 0xffffffffull);
    auto mx = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 31; };
    if (n.op == CONST || n.op == INPUT) mx(k.w[2]);
    else { mx(N[n.a].sh); mx(n.b ? N[n.b].sh : 0); mx(n.c ? N[n.c].sh : 0); }
    n.sh = h;
  }
  u32 id = N.size();
  N.push_back(n);
  H.emplace(k, id);
  return id;
}
static Node blank(Op o, Sort s, int w) { Node n; memset((void*)&n, 0, sizeof n); n.op = o; n.sort = s; n.width = w; n.g = -2000; return n; }
static u32 cI(i64 v, int w) { Node n = blank(CONST, INT, w); n.iv = v; n.ilo = n.ihi = v; return mk(n); }
static u32 cB(bool v) { Node n = blank(CONST, BOOL, 1); n.iv = v; return mk(n); }
static u32 cD(double v) { Node n = blank(CONST, REAL, 64); n.dv = v; n.lo = n.hi = v; n.g = lsbexp(v); return mk(n); }
static bool isc(u32 x) { return N[x].op == CONST; }
static u32 bnot(u32 x) {
  if (isc(x)) return cB(!N[x].iv);
  if (N[x].op == BNOT) return N[x].a;
  Node n = blank(BNOT, BOOL, 1); n.a = x; n.iv = !N[x].iv; return mk(n);
}
static u32 band(u32 x, u32 y) {
  if (isc(x)) return N[x].iv ? y : x;
  if (isc(y)) return N[y].iv ? x : y;
  if (x == y) return x;
  if (x > y) std::swap(x, y);
  Node n = blank(BAND, BOOL, 1); n.a = x; n.b = y; n.iv = N[x].iv && N[y].iv; return mk(n);
}
static u32 bor(u32 x, u32 y) {
  if (isc(x)) return N[x].iv ? x : y;
  if (isc(y)) return N[y].iv ? y : x;
  if (x == y) return x;
  if (x > y) std::swap(x, y);
  Node n = blank(BOR, BOOL, 1); n.a = x; n.b = y; n.iv = N[x].iv || N[y].iv; return mk(n);
}
static u32 bxor(u32 x, u32 y) {
  if (isc(x)) return N[x].iv ? bnot(y) : y;
  if (isc(y)) return N[y].iv ? bnot(x) : x;
  Node n = blank(BXOR, BOOL, 1); n.a = x; n.b = y; n.iv = N[x].iv != N[y].iv; return mk(n);
}
static u32 rlt(u32 x, u32 y, bool le) {  // real x<y or x<=y
  if (isc(x) && isc(y)) return cB(le ? N[x].dv <= N[y].dv : N[x].dv < N[y].dv);
  if (x == y) return cB(le);
  if (le ? N[x].hi <= N[y].lo : N[x].hi < N[y].lo) return cB(true);
  if (le ? N[x].lo > N[y].hi : N[x].lo >= N[y].hi) return cB(false);
  // against a constant, compare with the nearest multiple of the grid the other side lies on:
  // that is exact, shrinks the real relaxation and makes equivalent comparisons the same node
  if (isc(x) != isc(y)) {
    u32 e = isc(x) ? y : x;
    double c = isc(x) ? N[x].dv : N[y].dv;
    int g = N[e].g;
    double s = g > -900 && g < 900 ? ldexp(c, -g) : INFINITY;
    if (fabs(s) < 0x1p52) {
      // e <= c: floor(s); e < c: ceil(s) - 1; c <= e is not (e < c); c < e is not (e <= c)
      bool neg = e == y, strict = neg ? le : !le;
      double k = strict ? ceil(s) - 1 : floor(s);
      u32 kc = cD(ldexp(k, g));
      if (N[e].hi <= N[kc].dv) return cB(!neg);
      if (N[e].lo > N[kc].dv) return cB(neg);
      Node n = blank(LE, BOOL, 1); n.aux = REAL; n.a = e; n.b = kc; n.iv = N[e].dv <= N[kc].dv;
      u32 r = mk(n);
      return neg ? bnot(r) : r;
    }
  }
  Node n = blank(le ? LE : LT, BOOL, 1); n.aux = REAL; n.a = x; n.b = y; n.iv = le ? N[x].dv <= N[y].dv : N[x].dv < N[y].dv; return mk(n);
}
static u32 req(u32 x, u32 y) {
  if (isc(x) && isc(y)) return cB(N[x].dv == N[y].dv);
  if (x == y) return cB(true);
  if (N[x].hi < N[y].lo || N[x].lo > N[y].hi) return cB(false);
  if (x > y) std::swap(x, y);
  Node n = blank(EQ, BOOL, 1); n.aux = REAL; n.a = x; n.b = y; n.iv = N[x].dv == N[y].dv; return mk(n);
}
static u32 ilt(u32 x, u32 y, bool le) {
  if (isc(x) && isc(y)) return cB(le ? N[x].iv <= N[y].iv : N[x].iv < N[y].iv);
  if (x == y) return cB(le);
  if (le ? N[x].ihi <= N[y].ilo : N[x].ihi < N[y].ilo) return cB(true);
  if (le ? N[x].ilo > N[y].ihi : N[x].ilo >= N[y].ihi) return cB(false);
  Node n = blank(le ? LE : LT, BOOL, 1); n.aux = INT; n.a = x; n.b = y; n.iv = le ? N[x].iv <= N[y].iv : N[x].iv < N[y].iv; return mk(n);
}
static u32 ieq(u32 x, u32 y) {
  if (isc(x) && isc(y)) return cB(N[x].iv == N[y].iv);
  if (x == y) return cB(true);
  if (N[x].ihi < N[y].ilo || N[x].ilo > N[y].ihi) return cB(false);
  // ite(c, k1, k2) == k  with constants (bool -> int -> bool round trips)
  for (int t = 0; t < 2; ++t) {
    if (N[x].op == ITE && isc(N[x].b) && isc(N[x].c) && isc(y)) {
      bool e1 = N[N[x].b].iv == N[y].iv, e2 = N[N[x].c].iv == N[y].iv;
      if (e1 && e2) return cB(true);
      if (!e1 && !e2) return cB(false);
      return e1 ? N[x].a : bnot(N[x].a);
    }
    std::swap(x, y);
  }
  if (x > y) std::swap(x, y);
  Node n = blank(EQ, BOOL, 1); n.aux = INT; n.a = x; n.b = y; n.iv = N[x].iv == N[y].iv; return mk(n);
}
static u32 ite(u32 c, u32 x, u32 y) {
  if (isc(c)) return N[c].iv ? x : y;
  if (x == y) return x;
  Sort s = N[x].sort;
  if (s == BOOL) return bor(band(c, x), band(bnot(c), y));
  Node n = blank(ITE, s, N[x].width); n.a = c; n.b = x; n.c = y;
  if (s == INT) { n.iv = N[c].iv ? N[x].iv : N[y].iv; n.ilo = std::min(N[x].ilo, N[y].ilo); n.ihi = std::max(N[x].ihi, N[y].ihi); }
  else { n.dv = N[c].iv ? N[x].dv : N[y].dv; n.lo = std::min(N[x].lo, N[y].lo); n.hi = std::max(N[x].hi, N[y].hi); n.g = std::min(N[x].g, N[y].g); }
  return mk(n);
}
// ---- ints.  Values are kept in signed representation of their width.
static i128 smin_(int w) { return -((i128)1 << (w - 1)); }
static i128 smax_(int w) { return ((i128)1 << (w - 1)) - 1; }
static i64 wrapv(i128 v, int w) {
  u64 x = (u64)v;
  if (w < 64) { x &= (1ull << w) - 1; if (x >> (w - 1) & 1) x |= ~((1ull << w) - 1); }
  return (i64)x;
}
static u32 rawI(Op o, int w, u32 a, u32 b, i64 v, i128 lo, i128 hi, int nsw = 0) {
  Node n = blank(o, INT, w); n.aux = nsw; n.a = a; n.b = b; n.iv = v; n.ilo = lo; n.ihi = hi;
  if (isc(a) && isc(b) && lo == hi && lo == (i128)v) return cI(v, w);
  return mk(n);
}
// Exact mathematical value nodes may exceed the width; they are wrapped on demand.
static u32 fit(u32 e, int w, bool nowrap, i128 mathv) {
  Node& n = N[e];
  if (n.ilo >= smin_(w) && n.ihi <= smax_(w)) return e;
  if (nowrap) { n.ilo = std::max(n.ilo, smin_(w)); n.ihi = std::min(n.ihi, smax_(w)); return e; }
  Node m = blank(IWRAP, INT, w); m.a = e; m.iv = wrapv(mathv, w); m.ilo = smin_(w); m.ihi = smax_(w);
  return mk(m);
}
static u32 iadd(u32 a, u32 b, int w, bool nw) {
  if (isc(a) && N[a].iv == 0) return b;
  if (isc(b) && N[b].iv == 0) return a;
  i128 v = (i128)N[a].iv + N[b].iv;
  if (isc(a) && isc(b)) return cI(wrapv(v, w), w);
  u32 e = rawI(IADD, w, a, b, (i64)v, N[a].ilo + N[b].ilo, N[a].ihi + N[b].ihi, nw);
  return fit(e, w, nw, v);
}
static u32 isub(u32 a, u32 b, int w, bool nw) {
  if (isc(b) && N[b].iv == 0) return a;
  i128 v = (i128)N[a].iv - N[b].iv;
  if (isc(a) && isc(b)) return cI(wrapv(v, w), w);
  if (a == b) return cI(0, w);
  u32 e = rawI(ISUB, w, a, b, (i64)v, N[a].ilo - N[b].ihi, N[a].ihi - N[b].ilo, nw);
  return fit(e, w, nw, v);
}
static u32 imul(u32 a, u32 b, int w, bool nw) {
  i128 v = (i128)N[a].iv * N[b].iv;
  if (isc(a) && isc(b)) return cI(wrapv(v, w), w);
  if (isc(a)) std::swap(a, b);
  if (isc(b) && N[b].iv == 1) return a;
  if (isc(b) && N[b].iv == 0) return b;
  if (!isc(b)) st.nl++;
  // saturate the interval product
  auto cl = [](i128 x) { i128 L = (i128)1 << 62; return x > L ? L : x < -L ? -L : x; };
  i128 p[4] = {cl(N[a].ilo) * cl(N[b].ilo), cl(N[a].ilo) * cl(N[b].ihi), cl(N[a].ihi) * cl(N[b].ilo), cl(N[a].ihi) * cl(N[b].ihi)};
  u32 e = rawI(IMUL, w, a, b, (i64)v, *std::min_element(p, p + 4), *std::max_element(p, p + 4), nw);
  return fit(e, w, nw, v);
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) --q; return q; }
static u32 idivf(u32 a, u32 b, int w) {  // floor division, b > 0 constant or positive interval
  i128 A = N[a].iv, Bv = N[b].iv ? N[b].iv : 1;
  i128 q = fdiv(A, Bv);
  if (isc(a) && isc(b)) return cI((i64)q, w);
  i128 bl = N[b].ilo > 0 ? N[b].ilo : 1, bh = N[b].ihi > 0 ? N[b].ihi : 1;
  i128 p[4] = {fdiv(N[a].ilo, bl), fdiv(N[a].ilo, bh), fdiv(N[a].ihi, bl), fdiv(N[a].ihi, bh)};
  return rawI(IDIVE, w, a, b, (i64)q, *std::min_element(p, p + 4), *std::max_element(p, p + 4));
}
static u32 imodf(u32 a, u32 b, int w) {  // floor modulo, b>0
  i128 A = N[a].iv, Bv = N[b].iv ? N[b].iv : 1;
  i128 r = A - fdiv(A, Bv) * Bv;
  if (isc(a) && isc(b)) return cI((i64)r, w);
  if (isc(b) && N[a].ilo >= 0 && N[a].ihi < N[b].iv) return a;
  return rawI(IMODE, w, a, b, (i64)r, 0, N[b].ihi - 1);
}
static u32 uview(u32 a, int w) {  // unsigned value (may exceed signed range of w)
  if (N[a].ilo >= 0) return a;
  i128 m = (i128)1 << w;
  if (w == 64) {
    // value + 2^64 when negative: representable only as a Z3 term
    Node n = blank(ITE, INT, 64);
    Node c = blank(CONST, INT, 64);
    (void)n; (void)c; (void)m;
    return 0;  // caller falls back
  }
  u32 neg = ilt(a, cI(0, w), false);
  Node n = blank(IADD, INT, 64); n.a = a; n.b = cI((i64)m, 64); n.iv = N[a].iv + (i64)m; n.ilo = N[a].ilo + m; n.ihi = N[a].ihi + m;
  u32 s = mk(n);
  u32 r = ite(neg, s, a);
  if (!isc(r) && N[r].op == ITE) { N[r].ilo = 0; N[r].ihi = std::max(m - 1, (i128)0); }
  return r;
}

// ---- reals
static u32 rnode(Op o, u32 a, u32 b, double v, double lo, double hi, int g) {
  Node n = blank(o, REAL, 64); n.a = a; n.b = b; n.dv = v; n.lo = lo; n.hi = hi; n.g = g; return mk(n);
}
static u32 rnd(u32 e) {  // rounding of an exact real expression to double
  Node& n = N[e];
  double M = std::max(fabs(n.lo), fabs(n.hi));
  if (n.g > -1074 && M < ldexp(1.0, std::min(1023, n.g + 53))) return e;
  if (n.op == CONST) return e;
  st.rounds++;
  Node r = blank(RROUND, REAL, 64); r.a = e; r.dv = n.dv; r.g = n.g < -1074 ? -1074 : n.g;
  double lo = n.lo, hi = n.hi;
  // double rounding is monotone, so representable interval ends stay valid
  r.lo = lo; r.hi = hi;
  return mk(r);
}
static bool inf_guard(double lo, double hi) {
  if (!(hi < 1.7976931348623157e308) || !(lo > -1.7976931348623157e308)) { st.overflow++; return true; }
  return false;
}
static u32 radd(u32 a, u32 b) {
  if (isc(a) && isc(b)) return cD(N[a].dv + N[b].dv);
  if (isc(a) && N[a].dv == 0) return b;
  if (isc(b) && N[b].dv == 0) return a;
  double lo = N[a].lo + N[b].lo, hi = N[a].hi + N[b].hi;  // monotone rounding: ends are exact bounds of the rounded value
  if (inf_guard(lo, hi)) { lo = std::max(lo, -1.797e308); hi = std::min(hi, 1.797e308); }
  if (a > b) std::swap(a, b);
  // outward for the exact value
  return rnd(rnode(RADD, a, b, N[a].dv + N[b].dv, lo, hi, std::min(N[a].g, N[b].g)));
}
static u32 rsub(u32 a, u32 b) {
  if (isc(a) && isc(b)) return cD(N[a].dv - N[b].dv);
  if (isc(b) && N[b].dv == 0) return a;
  if (a == b) return cD(0.0);
  double lo = N[a].lo - N[b].hi, hi = N[a].hi - N[b].lo;
  return rnd(rnode(RSUB, a, b, N[a].dv - N[b].dv, lo, hi, std::min(N[a].g, N[b].g)));
}
static u32 rmul(u32 a, u32 b) {
  if (isc(a) && isc(b)) return cD(N[a].dv * N[b].dv);
  if (isc(a)) std::swap(a, b);
  if (isc(b) && N[b].dv == 1) return a;
  if (isc(b) && N[b].dv == 0) return cD(0.0);
  if (!isc(b)) { st.nl++; if (a > b) std::swap(a, b); }
  double p[4] = {N[a].lo * N[b].lo, N[a].lo * N[b].hi, N[a].hi * N[b].lo, N[a].hi * N[b].hi};
  double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
  if (a == b && lo < 0) lo = 0;
  int g = N[a].g + N[b].g;
  return rnd(rnode(RMUL, a, b, N[a].dv * N[b].dv, lo, hi, g));
}
static void branch(u32 c, bool taken);
static u32 rdiv(u32 a, u32 b) {
  if (isc(a) && isc(b)) return cD(N[a].dv / N[b].dv);
  if (isc(b) && N[b].dv == 1) return a;
  if (a == b) return cD(1.0);
  if (isc(a) && N[a].dv == 0) return cD(0.0);  // b != 0 established by caller
  double lo, hi;
  int g = -3000;
  if (isc(b)) {
    double c = N[b].dv, x = N[a].lo / c, y = N[a].hi / c;
    lo = std::min(x, y); hi = std::max(x, y);
    int e; if (fabs(frexp(c, &e)) == 0.5) g = N[a].g - (e - 1);
  } else {
    st.nl++;
    if (N[b].lo > 0 || N[b].hi < 0) {
      double p[4] = {N[a].lo / N[b].lo, N[a].lo / N[b].hi, N[a].hi / N[b].lo, N[a].hi / N[b].hi};
      lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
    } else { lo = -1.7e308; hi = 1.7e308; }
    // an exact product divided by one of its factors is the other factor
    if (N[a].op == RMUL && N[a].a == b) return N[a].b;
    if (N[a].op == RMUL && N[a].b == b) return N[a].a;
    // x / min(x, c): divide in both cases, which is exact or simpler
    if (N[b].op == ITE) {
      u32 k = N[b].a, p = N[b].b, q = N[b].c;
      auto ok = [&](u32 t) { return t == a || (isc(t) && N[t].dv != 0); };
      if (ok(p) && ok(q)) { st.nl--; u32 l = rdiv(a, p), r = rdiv(a, q); return ite(k, l, r); }
    }
  }
  return rnd(rnode(RDIV, a, b, N[a].dv / N[b].dv, lo, hi, g));
}
static u32 rneg(u32 a) {
  if (isc(a)) return cD(-N[a].dv);
  if (N[a].op == RNEG) return N[a].a;
  return rnode(RNEG, a, 0, -N[a].dv, -N[a].hi, -N[a].lo, N[a].g);
}
static u32 rabs(u32 a) {
  if (N[a].lo >= 0) return a;
  if (N[a].hi <= 0) return rneg(a);
  return rnode(RABS, a, 0, fabs(N[a].dv), 0, std::max(-N[a].lo, N[a].hi), N[a].g);
}
static u32 rfloor(u32 a) {
  if (isc(a)) return cD(floor(N[a].dv));
  if (N[a].g >= 0) return a;
  return rnode(RFLOOR, a, 0, floor(N[a].dv), floor(N[a].lo), floor(N[a].hi), 0);
}
static u32 rtrunc(u32 a) {
  if (N[a].lo >= 0) return rfloor(a);
  if (N[a].hi <= 0) return rneg(rfloor(rneg(a)));
  return ite(rlt(a, cD(0), false), rneg(rfloor(rneg(a))), rfloor(a));
}

// ------------------------------------------------------------------ Z3
static Z3_context ctx;
static Z3_solver sol;
static Z3_sort zI, zR;
static std::vector<Z3_ast> side;       // pending base-level side constraints
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
  _exit(77);
}
static std::string mulpow2(u64 m, int k) {  // decimal of m*2^k, k>=0
  std::vector<u32> d;  // base 1e9
  while (m) { d.push_back(m % 1000000000); m /= 1000000000; }
  if (d.empty()) d.push_back(0);
  while (k > 0) {
    int s = std::min(k, 29); k -= s;
    u64 carry = 0;
    for (auto& x : d) { u64 v = ((u64)x << s) + carry; x = v % 1000000000; carry = v / 1000000000; }
    while (carry) { d.push_back(carry % 1000000000); carry /= 1000000000; }
  }
  std::string r = std::to_string(d.back());
  for (int i = (int)d.size() - 2; i >= 0; --i) { char b[16]; snprintf(b, 16, "%09u", d[i]); r += b; }
  return r;
}
static Z3_ast zreal(double v) {
  if (v == 0) return Z3_mk_numeral(ctx, "0", zR);
  int e; double m = frexp(fabs(v), &e);
  u64 k = (u64)ldexp(m, 53); e -= 53;
  int tz = __builtin_ctzll(k); k >>= tz; e += tz;
  std::string s = e >= 0 ? mulpow2(k, e) : mulpow2(k, 0) + "/" + mulpow2(1, -e);
  if (v < 0) s = "-" + s;
  return Z3_mk_numeral(ctx, s.c_str(), zR);
}
static Z3_ast zint(i128 v) {
  bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  std::string s; if (!u) s = "0";
  while (u) { s = char('0' + (int)(u % 10)) + s; u /= 10; }
  if (neg) s = "-" + s;
  return Z3_mk_numeral(ctx, s.c_str(), zI);
}
static Z3_ast mk2(Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[]), Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return f(ctx, 2, x); }
static int grid2(u32 a, u32 b) { int g = std::min(N[a].g, N[b].g); return g < 900 ? g : -2000; }
static Z3_ast tr(u32 id) {
  if (N[id].z) return (Z3_ast)N[id].z;
  // iterative would be safer; depth is modest because harnesses are bounded
  Node n = N[id];
  Z3_ast r = nullptr, x = nullptr, y = nullptr;
  if (n.op != CONST && n.op != INPUT) {
    if (n.op == ITE) {
      Z3_ast c = tr(n.a); x = tr(n.b); y = tr(n.c);
      r = Z3_mk_ite(ctx, c, x, y);
      N[id].z = r;
      return r;
    }
    x = tr(n.a);
    bool un = n.op == RNEG || n.op == RROUND || n.op == RABS || n.op == RFLOOR || n.op == I2R || n.op == IWRAP || n.op == INEG || n.op == R2I_FLOOR || n.op == BNOT || n.op == RSQRT || n.op == RUF;
    if (!un) y = tr(n.b);
  }
  switch (n.op) {
    case CONST: r = n.sort == BOOL ? (n.iv ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : n.sort == INT ? zint(n.iv) : zreal(n.dv); break;
    case INPUT: {
      Input& in = inputs[n.in];
      std::string nm = in.name + "#" + std::to_string(n.in);
      Z3_symbol sy = Z3_mk_string_symbol(ctx, nm.c_str());
      if (in.isd) {
        r = Z3_mk_const(ctx, sy, zR);
        side.push_back(Z3_mk_ge(ctx, r, zreal(in.lo))); side.push_back(Z3_mk_le(ctx, r, zreal(in.hi)));
      } else {
        r = Z3_mk_const(ctx, sy, zI);
        side.push_back(Z3_mk_ge(ctx, r, zint(in.ilo))); side.push_back(Z3_mk_le(ctx, r, zint(in.ihi)));
      }
      break;
    }
    case RADD: case IADD: r = mk2(Z3_mk_add, x, y); break;
    case RSUB: case ISUB: r = mk2(Z3_mk_sub, x, y); break;
    case RMUL: case IMUL: r = mk2(Z3_mk_mul, x, y); break;
    case RDIV:
      if (isc(n.b)) r = Z3_mk_div(ctx, x, y);
      else {  // q*y = x
        char b[32]; snprintf(b, 32, "q!%u", id);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), zR);
        side.push_back(Z3_mk_eq(ctx, mk2(Z3_mk_mul, r, y), x));
      }
      break;
    case RNEG: case INEG: r = Z3_mk_unary_minus(ctx, x); break;
    case RABS: r = Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, zreal(0)), x, Z3_mk_unary_minus(ctx, x)); break;
    case RFLOOR: r = Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, x)); break;
    case R2I_FLOOR: r = Z3_mk_real2int(ctx, x); break;
    case I2R: r = Z3_mk_int2real(ctx, x); break;
    case RROUND: {
      char b[32]; snprintf(b, 32, "d!%u", id);
      Z3_ast d = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), zR);
      Z3_ast u = zreal(ldexp(1.0, -53));
      Z3_ast ue = mk2(Z3_mk_mul, u, x), me = Z3_mk_unary_minus(ctx, ue);
      const Node& e = N[n.a];
      Z3_ast pos = mk2(Z3_mk_and, Z3_mk_le(ctx, me, d), Z3_mk_le(ctx, d, ue));
      Z3_ast neg = mk2(Z3_mk_and, Z3_mk_le(ctx, ue, d), Z3_mk_le(ctx, d, me));
      if (e.lo >= 0) side.push_back(pos);
      else if (e.hi <= 0) side.push_back(neg);
      else side.push_back(Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, zreal(0)), pos, neg));
      r = mk2(Z3_mk_add, x, d);
      break;
    }
    case RSQRT: {
      char b[32]; snprintf(b, 32, "s!%u", id);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), zR);
      side.push_back(Z3_mk_ge(ctx, r, zreal(0)));
      side.push_back(Z3_mk_eq(ctx, mk2(Z3_mk_mul, r, r), x));
      break;
    }
    case RFDIST: {  // distance in representable doubles: sign, and a lower bound from the coarsest spacing
      char b[32]; snprintf(b, 32, "fd!%u", id);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), zR);
      double M = std::max(std::max(fabs(N[n.a].lo), fabs(N[n.a].hi)), std::max(fabs(N[n.b].lo), fabs(N[n.b].hi)));
      int e; frexp(M, &e);
      Z3_ast k = zreal(ldexp(1.0, 51 - e));
      Z3_ast d = mk2(Z3_mk_mul, mk2(Z3_mk_sub, y, x), k);
      // distinct values on a common grid are at least one grid step apart
      int gg = std::min((int)N[n.a].g, (int)N[n.b].g);
      double gap = gg > -900 ? std::max(1.0, ldexp(1.0, gg + 51 - e)) : 1.0;
      Z3_ast one = zreal(gap), mone = zreal(-gap);
      Z3_ast pos = mk2(Z3_mk_and, Z3_mk_ge(ctx, r, one), Z3_mk_ge(ctx, r, d));
      Z3_ast neg = mk2(Z3_mk_and, Z3_mk_le(ctx, r, mone), Z3_mk_le(ctx, r, d));
      side.push_back(Z3_mk_ite(ctx, Z3_mk_eq(ctx, x, y), Z3_mk_eq(ctx, r, zreal(0)), Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, y), pos, neg)));
      break;
    }
    case RUF: {  // uninterpreted unary function (exp, log, pow with constant, ...)
      char b[32]; snprintf(b, 32, "uf!%u", n.aux);
      Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, b), 1, &zR, zR);
      r = Z3_mk_app(ctx, f, 1, &x);
      break;
    }
    case IDIVE: r = Z3_mk_div(ctx, x, y); break;
    case IMODE: r = Z3_mk_mod(ctx, x, y); break;
    case IWRAP: {
      i128 m = (i128)1 << n.width, h = (i128)1 << (n.width - 1);
      r = mk2(Z3_mk_sub, Z3_mk_mod(ctx, mk2(Z3_mk_add, x, zint(h)), zint(m)), zint(h));
      break;
    }
    case IBV: {
      unsigned w = n.width;
      Z3_ast bx = Z3_mk_int2bv(ctx, w, x), by = Z3_mk_int2bv(ctx, w, y);
      Z3_ast bv = n.aux == 0 ? Z3_mk_bvand(ctx, bx, by) : n.aux == 1 ? Z3_mk_bvor(ctx, bx, by) : Z3_mk_bvxor(ctx, bx, by);
      r = Z3_mk_bv2int(ctx, bv, true);
      break;
    }
    case BNOT: {
      const Node& m = N[n.a];
      if (m.op == LE && m.aux == REAL && grid2(m.a, m.b) > -900) {  // a > b is a >= b + 2^g
        r = Z3_mk_ge(ctx, tr(m.a), mk2(Z3_mk_add, tr(m.b), zreal(ldexp(1.0, grid2(m.a, m.b)))));
        break;
      }
      if (m.op == EQ && m.aux == REAL && grid2(m.a, m.b) > -900) {
        Z3_ast p = tr(m.a), q = tr(m.b), s = zreal(ldexp(1.0, grid2(m.a, m.b)));
        r = mk2(Z3_mk_or, Z3_mk_ge(ctx, p, mk2(Z3_mk_add, q, s)), Z3_mk_ge(ctx, q, mk2(Z3_mk_add, p, s)));
        break;
      }
      r = Z3_mk_not(ctx, x); break;
    }
    case BAND: r = mk2(Z3_mk_and, x, y); break;
    case BOR: r = mk2(Z3_mk_or, x, y); break;
    case BXOR: r = Z3_mk_xor(ctx, x, y); break;
    case LT:
      if (n.aux == REAL && grid2(n.a, n.b) > -900) { r = Z3_mk_le(ctx, mk2(Z3_mk_add, x, zreal(ldexp(1.0, grid2(n.a, n.b)))), y); break; }
      r = Z3_mk_lt(ctx, x, y); break;
    case LE: r = Z3_mk_le(ctx, x, y); break;
    case EQ: r = Z3_mk_eq(ctx, x, y); break;
    default: abort();
  }
  N[id].z = r;
  return r;
}
// ---- second translation, for phase 2: a real that is known to be a multiple of 2^g is an integer number of 2^g,
// so that everything exact is integer arithmetic; only rounded values stay real.
struct TI { Z3_ast a; bool isint; int g; };
static std::unordered_map<u32, TI> tic;
static std::vector<Z3_ast> sidei;
static Z3_ast zpow2(int k) { return Z3_mk_numeral(ctx, mulpow2(1, k).c_str(), zI); }
static Z3_ast sc(const TI& t, int g) { return t.g == g ? t.a : mk2(Z3_mk_mul, zpow2(t.g - g), t.a); }
static Z3_ast asreal(const TI& t) { return !t.isint ? t.a : t.g == 0 ? Z3_mk_int2real(ctx, t.a) : mk2(Z3_mk_mul, zreal(ldexp(1.0, t.g)), Z3_mk_int2real(ctx, t.a)); }
static const int GMIN = -64;
static TI ti(u32 id) {
  auto it = tic.find(id);
  if (it != tic.end()) return it->second;
  const Node n = N[id];
  TI r = {nullptr, false, 0}, x = r, y = r, w = r;
  bool un = n.op == RNEG || n.op == RROUND || n.op == RABS || n.op == RFLOOR || n.op == I2R || n.op == IWRAP || n.op == INEG || n.op == R2I_FLOOR || n.op == BNOT || n.op == RSQRT || n.op == RUF;
  if (n.op != CONST && n.op != INPUT) {
    x = ti(n.a);
    if (!un) y = ti(n.b);
    if (n.op == ITE) w = ti(n.c);
  }
  auto nm = [&](const char* p) { char b[40]; snprintf(b, 40, "i%s!%u", p, id); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), zR); };
  bool II = x.isint && y.isint;
  int g = std::min(x.g, y.g);
  switch (n.op) {
    case CONST:
      if (n.sort != REAL) { r.a = tr(id); break; }
      if (n.dv == 0) r = {zint(0), true, 0};
      else if (n.g >= GMIN && n.g < 200) {
        i128 k = (i128)ldexp(n.dv, -n.g);
        r = {zint(k), true, n.g};
      } else r.a = zreal(n.dv);
      break;
    case INPUT: {
      Input& in = inputs[n.in];
      if (!in.isd) {
        r.a = tr(id);
        sidei.push_back(Z3_mk_ge(ctx, r.a, zint(in.ilo))); sidei.push_back(Z3_mk_le(ctx, r.a, zint(in.ihi)));
        break;
      }
      std::string s = "k!" + in.name + "#" + std::to_string(n.in);
      Z3_ast k = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, s.c_str()), zI);
      sidei.push_back(Z3_mk_ge(ctx, k, zint((i128)ldexp(in.lo, -in.grid)))); sidei.push_back(Z3_mk_le(ctx, k, zint((i128)ldexp(in.hi, -in.grid))));
      r = {k, true, in.grid};
      break;
    }
    case RADD: if (II) r = {mk2(Z3_mk_add, sc(x, g), sc(y, g)), true, g}; else r.a = mk2(Z3_mk_add, asreal(x), asreal(y)); break;
    case RSUB: if (II) r = {mk2(Z3_mk_sub, sc(x, g), sc(y, g)), true, g}; else r.a = mk2(Z3_mk_sub, asreal(x), asreal(y)); break;
    case RMUL:
      if (II && x.g + y.g >= 4 * GMIN) r = {mk2(Z3_mk_mul, x.a, y.a), true, x.g + y.g}; else r.a = mk2(Z3_mk_mul, asreal(x), asreal(y));
      break;
    case RDIV:
      if (isc(n.b)) {
        int e; double m = frexp(N[n.b].dv, &e);
        if (x.isint && fabs(m) == 0.5) r = {m > 0 ? x.a : Z3_mk_unary_minus(ctx, x.a), true, x.g - (e - 1)};
        else r.a = Z3_mk_div(ctx, asreal(x), zreal(N[n.b].dv));
      } else {
        r.a = nm("q");
        sidei.push_back(Z3_mk_eq(ctx, mk2(Z3_mk_mul, r.a, asreal(y)), asreal(x)));
      }
      break;
    case RNEG: r = x; r.a = Z3_mk_unary_minus(ctx, x.a); break;
    case RABS: r = x; r.a = Z3_mk_ite(ctx, Z3_mk_ge(ctx, x.a, x.isint ? zint(0) : zreal(0)), x.a, Z3_mk_unary_minus(ctx, x.a)); break;
    case RFLOOR: case R2I_FLOOR: {
      Z3_ast f = !x.isint ? Z3_mk_real2int(ctx, x.a) : x.g >= 0 ? sc(x, 0) : Z3_mk_div(ctx, x.a, zpow2(-x.g));
      r = {f, n.op == RFLOOR, 0};
      break;
    }
    case I2R: r = {x.a, true, 0}; break;
    case RROUND: {
      Z3_ast d = nm("d"), xr = asreal(x);
      Z3_ast ue = mk2(Z3_mk_mul, zreal(ldexp(1.0, -53)), xr), me = Z3_mk_unary_minus(ctx, ue);
      const Node& e = N[n.a];
      Z3_ast pos = mk2(Z3_mk_and, Z3_mk_le(ctx, me, d), Z3_mk_le(ctx, d, ue));
      Z3_ast neg = mk2(Z3_mk_and, Z3_mk_le(ctx, ue, d), Z3_mk_le(ctx, d, me));
      if (e.lo >= 0) sidei.push_back(pos);
      else if (e.hi <= 0) sidei.push_back(neg);
      else sidei.push_back(Z3_mk_ite(ctx, Z3_mk_ge(ctx, xr, zreal(0)), pos, neg));
      r.a = mk2(Z3_mk_add, xr, d);
      break;
    }
    case RSQRT:
      r.a = nm("s");
      sidei.push_back(Z3_mk_ge(ctx, r.a, zreal(0)));
      sidei.push_back(Z3_mk_eq(ctx, mk2(Z3_mk_mul, r.a, r.a), asreal(x)));
      break;
    case RFDIST: {
      r.a = nm("fd");
      double M = std::max(std::max(fabs(N[n.a].lo), fabs(N[n.a].hi)), std::max(fabs(N[n.b].lo), fabs(N[n.b].hi)));
      int e; frexp(M, &e);
      Z3_ast k = zreal(ldexp(1.0, 51 - e)), xr = asreal(x), yr = asreal(y);
      Z3_ast d = mk2(Z3_mk_mul, mk2(Z3_mk_sub, yr, xr), k);
      int gg = std::min((int)N[n.a].g, (int)N[n.b].g);
      double gap = gg > -900 ? std::max(1.0, ldexp(1.0, gg + 51 - e)) : 1.0;
      Z3_ast one = zreal(gap), mone = zreal(-gap);
      Z3_ast pos = mk2(Z3_mk_and, Z3_mk_ge(ctx, r.a, one), Z3_mk_ge(ctx, r.a, d));
      Z3_ast neg = mk2(Z3_mk_and, Z3_mk_le(ctx, r.a, mone), Z3_mk_le(ctx, r.a, d));
      Z3_ast eq = II ? Z3_mk_eq(ctx, sc(x, g), sc(y, g)) : Z3_mk_eq(ctx, xr, yr), lt = II ? Z3_mk_lt(ctx, sc(x, g), sc(y, g)) : Z3_mk_lt(ctx, xr, yr);
      sidei.push_back(Z3_mk_ite(ctx, eq, Z3_mk_eq(ctx, r.a, zreal(0)), Z3_mk_ite(ctx, lt, pos, neg)));
      break;
    }
    case RUF: {
      char b[32]; snprintf(b, 32, "uf!%u", n.aux);
      Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, b), 1, &zR, zR);
      Z3_ast xr = asreal(x);
      r.a = Z3_mk_app(ctx, f, 1, &xr);
      break;
    }
    case ITE:
      if (n.sort != REAL) r.a = Z3_mk_ite(ctx, x.a, y.a, w.a);
      else if (y.isint && w.isint) { int h = std::min(y.g, w.g); r = {Z3_mk_ite(ctx, x.a, sc(y, h), sc(w, h)), true, h}; }
      else r.a = Z3_mk_ite(ctx, x.a, asreal(y), asreal(w));
      break;
    case IADD: r.a = mk2(Z3_mk_add, x.a, y.a); break;
    case ISUB: r.a = mk2(Z3_mk_sub, x.a, y.a); break;
    case IMUL: r.a = mk2(Z3_mk_mul, x.a, y.a); break;
    case INEG: r.a = Z3_mk_unary_minus(ctx, x.a); break;
    case IDIVE: r.a = Z3_mk_div(ctx, x.a, y.a); break;
    case IMODE: r.a = Z3_mk_mod(ctx, x.a, y.a); break;
    case IWRAP: {
      i128 m = (i128)1 << n.width, h = (i128)1 << (n.width - 1);
      r.a = mk2(Z3_mk_sub, Z3_mk_mod(ctx, mk2(Z3_mk_add, x.a, zint(h)), zint(m)), zint(h));
      break;
    }
    case IBV: {
      unsigned wd = n.width;
      Z3_ast bx = Z3_mk_int2bv(ctx, wd, x.a), by = Z3_mk_int2bv(ctx, wd, y.a);
      Z3_ast bv = n.aux == 0 ? Z3_mk_bvand(ctx, bx, by) : n.aux == 1 ? Z3_mk_bvor(ctx, bx, by) : Z3_mk_bvxor(ctx, bx, by);
      r.a = Z3_mk_bv2int(ctx, bv, true);
      break;
    }
    case BNOT: r.a = Z3_mk_not(ctx, x.a); break;
    case BAND: r.a = mk2(Z3_mk_and, x.a, y.a); break;
    case BOR: r.a = mk2(Z3_mk_or, x.a, y.a); break;
    case BXOR: r.a = Z3_mk_xor(ctx, x.a, y.a); break;
    case LT: case LE: case EQ: {
      Z3_ast p = x.a, q = y.a;
      if (n.aux == REAL) { if (II) { p = sc(x, g); q = sc(y, g); } else { p = asreal(x); q = asreal(y); } }
      r.a = n.op == LT ? Z3_mk_lt(ctx, p, q) : n.op == LE ? Z3_mk_le(ctx, p, q) : Z3_mk_eq(ctx, p, q);
      break;
    }
    default: abort();
  }
  tic[id] = r;
  return r;
}
static Z3_solver soli = nullptr;
static std::vector<u32> bnodes;   // conditions asserted at base level
static size_t bdone = 0;          // how many of them soli has
static void flushi() { for (auto a : sidei) Z3_solver_assert(ctx, soli, a); sidei.clear(); }
static std::vector<Z3_ast> base;  // everything asserted at base level (for fallback solvers)
static void bassert(Z3_ast a) { Z3_solver_assert(ctx, sol, a); base.push_back(a); }
static void flush() { for (auto a : side) bassert(a); side.clear(); }

struct Val { bool isd; double d; i64 i; };
typedef std::vector<Val> Vals;
static unsigned qtimeout = 4000;

static bool parse_rat(const char* s, i128& num, i128& den) {
  // returns false when too large
  bool neg = *s == '-'; if (neg) ++s;
  num = 0; den = 1; int nd = 0;
  while (*s && *s != '/') { if (++nd > 36) return false; num = num * 10 + (*s - '0'); ++s; }
  if (*s == '/') { ++s; den = 0; nd = 0; while (*s) { if (++nd > 36) return false; den = den * 10 + (*s - '0'); ++s; } }
  if (neg) num = -num;
  return true;
}
// extracts input values; returns false if some double is off grid
static bool extract(Z3_model m, Vals& out) {
  bool ongrid = true;
  out.clear();
  for (auto& in : inputs) {
    Val v; v.isd = in.isd; v.d = in.dv; v.i = in.iv;
    if (N[in.node].z) {
      Z3_ast a = nullptr;
      if (Z3_model_eval(ctx, m, (Z3_ast)N[in.node].z, false, &a) && Z3_get_ast_kind(ctx, a) == Z3_NUMERAL_AST) {
        std::string s = Z3_get_numeral_string(ctx, a);
        i128 nu, de;
        if (in.isd) {
          if (parse_rat(s.c_str(), nu, de)) {
            // k = nu/de * 2^-grid must be an integer
            i128 sc = (i128)1 << (in.grid < 0 ? -in.grid : 0);
            bool ok = true; double dv;
            if (in.grid <= 0 && (nu < ((i128)1 << 80)) && (nu > -((i128)1 << 80))) {
              if (-in.grid <= 45 && (nu * sc) % de == 0) dv = ldexp((double)((nu * sc) / de), in.grid);
              else { ok = false; dv = ldexp(rint((double)((long double)nu / (long double)de * powl(2, -in.grid))), in.grid); }
            } else { ok = false; dv = ldexp(rint((double)((long double)nu / (long double)de * powl(2, -in.grid))), in.grid); }
            if (!ok) ongrid = false;
            v.d = std::min(in.hi, std::max(in.lo, dv));
          } else {
            ongrid = false;
            double dv = Z3_get_numeral_double(ctx, a);
            v.d = std::min(in.hi, std::max(in.lo, ldexp(rint(ldexp(dv, -in.grid)), in.grid)));
          }
        } else { i64 t; if (Z3_get_numeral_int64(ctx, a, &t)) v.i = t; }
      } else if (a && in.isd && Z3_is_algebraic_number(ctx, a)) {
        ongrid = false;
        std::string s = Z3_get_numeral_decimal_string(ctx, a, 20);
        double dv = atof(s.c_str());
        v.d = std::min(in.hi, std::max(in.lo, ldexp(rint(ldexp(dv, -in.grid)), in.grid)));
      }
    }
    out.push_back(v);
  }
  return ongrid;
}
// the same for a model of the integer translation; inputs it does not mention keep what out has
static void extracti(Z3_model m, Vals& out) {
  for (size_t i = 0; i < inputs.size(); i++) {
    auto it = tic.find(inputs[i].node);
    if (it == tic.end()) continue;
    Z3_ast a = nullptr;
    i64 t;
    if (!Z3_model_eval(ctx, m, it->second.a, true, &a) || Z3_get_ast_kind(ctx, a) != Z3_NUMERAL_AST || !Z3_get_numeral_int64(ctx, a, &t)) continue;
    if (inputs[i].isd) out[i].d = ldexp((double)t, inputs[i].grid); else out[i].i = t;
  }
}
static Z3_lbool zcheck(Z3_solver s) {
  double t0 = now();
  Z3_lbool r = Z3_solver_check(ctx, s);
  double dt = now() - t0;
  st.solver += dt; st.maxq = std::max(st.maxq, dt); st.queries++;
  return r;
}
static unsigned gtimeout = 1000;
static void set_timeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
}
// Is base /\ c satisfiable?  1 yes (vals filled), 0 no, -1 unknown
static int query(u32 c, Vals& out) {
  Z3_ast z = tr(c);
  flush();
  Z3_solver_push(ctx, sol);
  Z3_solver_assert(ctx, sol, z);
  Z3_lbool r = zcheck(sol);
  int res;
  if (r == Z3_L_FALSE) res = 0;
  else if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, sol);
    Z3_model_inc_ref(ctx, m);
    bool og = extract(m, out);
    Z3_model_dec_ref(ctx, m);
    res = 1;
    if (!og) {
      st.phase2++;
      // first try the model rounded to the grid, which mostly does
      Z3_solver_push(ctx, sol);
      for (size_t i = 0; i < inputs.size(); i++) {
        Z3_ast a = (Z3_ast)N[inputs[i].node].z;
        if (a && inputs[i].isd) Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, a, zreal(out[i].d)));
      }
      Z3_lbool rr = zcheck(sol);
      Z3_solver_pop(ctx, sol, 1);
      if (rr == Z3_L_TRUE) { st.sat++; Z3_solver_pop(ctx, sol, 1); return 1; }
      if (!soli) {
        soli = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, soli);
        set_timeout(soli, std::min(qtimeout, gtimeout));
      }
      for (; bdone < bnodes.size(); ++bdone) { Z3_ast b = ti(bnodes[bdone]).a; flushi(); Z3_solver_assert(ctx, soli, b); }
      Z3_ast zi = ti(c).a;
      flushi();
      Z3_solver_push(ctx, soli);
      Z3_solver_assert(ctx, soli, zi);
      r = zcheck(soli);
      if (r == Z3_L_FALSE) res = 0;
      else if (r == Z3_L_TRUE) { m = Z3_solver_get_model(ctx, soli); Z3_model_inc_ref(ctx, m); extracti(m, out); Z3_model_dec_ref(ctx, m); }
      else {  // use the rounded relaxed model; the run will tell whether it follows
        if (getenv("VP_DUMPQ")) { FILE* f = fopen((std::string(getenv("VP_DUMPQ")) + "/q" + std::to_string(getpid()) + ".smt2").c_str(), "w"); if (f) { fputs(Z3_solver_to_string(ctx, soli), f); fclose(f); } }
        st.offgrid++;
      }
      Z3_solver_pop(ctx, soli, 1);
    }
  } else res = -1;
  Z3_solver_pop(ctx, sol, 1);
  if (res == -1) {  // fall back on nlsat / a fresh solver
    Z3_solver s2 = nullptr;
    Z3_tactic t = Z3_mk_tactic(ctx, "default");
    Z3_tactic_inc_ref(ctx, t);
    s2 = Z3_mk_solver_from_tactic(ctx, t);
    Z3_solver_inc_ref(ctx, s2);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), qtimeout * 2);
    Z3_solver_set_params(ctx, s2, p);
    for (auto a : base) Z3_solver_assert(ctx, s2, a);
    Z3_solver_assert(ctx, s2, z);
    r = zcheck(s2);
    if (r == Z3_L_FALSE) res = 0;
    else if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(ctx, s2); Z3_model_inc_ref(ctx, m);
      if (!extract(m, out)) st.offgrid++;
      res = 1;
    }
    Z3_solver_dec_ref(ctx, s2);
  }
  if (res == 0) st.unsat++; else if (res == 1) st.sat++; else st.unknown++;
  return res;
}

// ------------------------------------------------------------------ child side
struct Item { Vals vals; u32 bound = 0; u64 hash = 0; u32 retry = 0; };
static Item cur;
static int outfd = -1;
static u32 nbr = 0;       // forking branches so far on this path
static u64 phash = 1469598103934665603ull;
static std::string outbuf;
static bool ended = false;
static void put(const void* p, size_t n) { outbuf.append((const char*)p, n); }
template <class T> static void putv(T v) { put(&v, sizeof v); }
static void puts_(const std::string& s) { putv<u32>(s.size()); put(s.data(), s.size()); }
static void putvals(const Vals& v) { putv<u32>(v.size()); for (auto& x : v) { putv<uint8_t>(x.isd); if (x.isd) putv(x.d); else putv(x.i); } }
static void flushout() {
  size_t o = 0;
  while (o < outbuf.size()) { ssize_t k = write(outfd, outbuf.data() + o, outbuf.size() - o); if (k < 0) { if (errno == EINTR) continue; _exit(78); } o += k; }
  outbuf.clear();
}
static Vals curvals() { Vals v; for (auto& in : inputs) { Val x; x.isd = in.isd; x.d = in.dv; x.i = in.iv; v.push_back(x); } return v; }
static void finish(int code) {
  if (ended) _exit(code);
  ended = true;
  outbuf += 'S'; put(&st, sizeof st);
  outbuf += 'I'; putv<u32>(inconclusive.size()); for (auto& k : inconclusive) { puts_(k.first); putv(k.second); }
  outbuf += 'R'; putv<u32>(reached.size()); for (auto& k : reached) { puts_(k.first); putv(k.second); }
  outbuf += 'A'; putv<u32>(assertlab.size()); for (auto& k : assertlab) { puts_(k.first); putv(k.second); }
  outbuf += 'X'; putv<u32>(extcalls.size()); for (auto& k : extcalls) { puts_(k.first); putv(k.second); }
  outbuf += 'P'; putv<u32>(sites.size()); for (auto& k : sites) putv(k);
  outbuf += 'H'; putv<u64>(phash); putv<u32>(nbr); putvals(curvals());
  outbuf += 'E';
  flushout();
  _exit(code);
}
static void emit_new(const Vals& v, u64 h) {
  outbuf += 'N'; putv<u32>(nbr); putv<u64>(h); putv<u32>(0); putvals(v);
}
static void emit_viol(const std::string& label, const Vals& v, int kind) {
  outbuf += 'V'; puts_(label); putv<int>(kind); putvals(v);
}
static u64 mix(u64 h, u64 x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; return h; }

// records a branch on c with the concrete outcome `taken`
static u32 maxbr = 100000;
static std::unordered_map<u32, bool> decided;
static void branch(u32 c, bool taken) {
  if (isc(c)) { st.folded++; return; }
  if (N[c].op == BNOT) { c = N[c].a; taken = !taken; }
  auto d = decided.find(c);
  if (d != decided.end()) { st.folded++; return; }
  decided[c] = taken;
  st.branches++;
  u32 yes = taken ? c : bnot(c), no = taken ? bnot(c) : c;
  nbr++;
  u64 hno = mix(phash, N[c].sh * 2 + !taken);
  phash = mix(phash, N[c].sh * 2 + taken);
  if (nbr > cur.bound) {
    Vals v;
    int r = query(no, v);
    if (r == 1) emit_new(v, hno);
    else if (r < 0) inconclusive["branch query unknown"]++;
  } else if (nbr == cur.bound) {
    if (phash != cur.hash) {
      st.diverged++;
      inconclusive["model not followed by the real arithmetic (rounding)"]++;
      outbuf += 'D'; putvals(curvals());
      finish(0);
    }
  }
  Z3_ast z = tr(yes);
  flush();
  bassert(z);
  bnodes.push_back(yes);
  if (nbr > maxbr) { inconclusive["branch bound exceeded"]++; finish(0); }
}
// pin an integer expression to its value (forks over the alternatives)
static u32 toint(u32 s, i64 v, int w);
static void pin(u32 e) {
  if (isc(e)) return;
  if (N[e].sort == BOOL) { branch(e, N[e].iv); return; }
  if (N[e].sort != INT) return;
  st.conc_int++;
  // binary search, so that the decisions do not depend on this run's value
  i128 lo = N[e].ilo, hi = N[e].ihi;
  int w = N[e].width;
  i64 v = N[e].iv;
  while (lo < hi) {
    i128 mid = lo + (hi - lo) / 2;
    if (hi - lo > 1 && lo < 0 && hi > 0) mid = 0;  // small magnitudes first
    if (mid >= hi) mid = hi - 1;
    u32 c = ilt(e, cI((i64)mid, w), true);
    bool t = (i128)v <= mid;
    branch(c, t);
    if (t) hi = mid; else lo = mid + 1;
  }
}

// ------------------------------------------------------------------ shadow memory
struct Page { u32 id[4096]; uint8_t off[4096]; };
static std::unordered_map<u64, Page*> pages;
static u64 lastpg = ~0ull; static Page* lastp = nullptr;
static Page* page(u64 a, bool create) {
  u64 pg = a >> 12;
  if (pg == lastpg && (lastp || !create)) return lastp;
  auto it = pages.find(pg);
  Page* p = it == pages.end() ? nullptr : it->second;
  if (!p && create) { p = (Page*)calloc(1, sizeof(Page)); pages[pg] = p; }
  lastpg = pg; lastp = p;
  return p;
}
static bool anyshadow = false;
static void setsh(u64 a, u32 n, u32 id) {
  if (!id && !anyshadow) return;
  if (id) anyshadow = true;
  for (u32 i = 0; i < n;) {
    Page* p = page(a + i, id != 0);
    u32 o = (a + i) & 4095, k = std::min<u32>(n - i, 4096 - o);
    if (p) for (u32 j = 0; j < k; ++j) { p->id[o + j] = id; p->off[o + j] = i + j; }
    i += k;
  }
}
static inline u32 getsh(u64 a, uint8_t& off) {
  Page* p = page(a, false);
  if (!p) return 0;
  off = p->off[a & 4095];
  return p->id[a & 4095];
}
static int nbytes(const Node& n) { return n.sort == BOOL ? 1 : (n.width + 7) / 8; }
static bool agrees(u32 id, i64 bits, u32 size) {
  const Node& n = N[id];
  if (n.sort == REAL) return size == 8 && n.iv == bits;
  i64 v = n.iv;
  if (size < 8) { u64 m = (1ull << (8 * size)) - 1; return ((u64)v & m) == ((u64)bits & m); }
  return v == bits;
}

// shadow -> int node of width w; 0 shadow -> const
static u32 toint(u32 s, i64 v, int w) {
  if (!s) return cI(v, w);
  Node& n = N[s];
  if (n.sort == BOOL) {
    u32 r = w == 1 ? ite(s, cI(-1, 1), cI(0, 1)) : ite(s, cI(1, w), cI(0, w));
    return r;
  }
  if (n.sort == REAL) { st.conc_real++; inconclusive["bits of a symbolic double used as an integer"]++; return cI(v, w); }
  return s;
}
static u32 tobool(u32 s, bool v) {
  if (!s) return cB(v);
  if (N[s].sort == BOOL) return s;
  if (N[s].sort == INT) return bnot(ieq(s, cI(0, N[s].width)));
  return cB(v);
}
static u32 toreal(u32 s, double v) {
  if (!s) return cD(v);
  if (N[s].sort == REAL) return s;
  inconclusive["integer bits reinterpreted as double"]++;
  return cD(v);
}
static u32 res(u32 e) { return isc(e) ? 0 : e; }

// ------------------------------------------------------------------ hooks
#define RA __builtin_return_address(0)
EXPORT u32 __vp_load(void* p, u32 size, u32 isd, i64 bits) {
  if (!anyshadow) return 0;
  ENTER(0);
  u64 a = (u64)p;
  uint8_t off = 0;
  u32 id = getsh(a, off);
  bool same = true, any = id != 0;
  for (u32 i = 1; i < size; ++i) {
    uint8_t o2 = 0; u32 i2 = getsh(a + i, o2);
    if (i2) any = true;
    if (i2 != id || o2 != off + i) same = false;
  }
  if (!any) return 0;
  if (same && off == 0 && nbytes(N[id]) == (int)size) {
    if (!agrees(id, bits, size)) { st.stale++; setsh(a, size, 0); return 0; }
    return id;
  }
  if (same && id && N[id].sort == INT && off + size <= (u32)nbytes(N[id])) {
    // part of a wider integer: (x div 2^(8 off)) mod 2^(8 size), as signed
    int w = N[id].width;
    u32 x = idivf(id, cI((i64)1 << (8 * off), 64), 64);
    u32 m = imodf(x, cI((i64)1 << (8 * size), 64), 64);
    i128 v = N[m].iv;
    (void)w;
    Node t = blank(IWRAP, INT, 8 * size); t.a = m; t.iv = wrapv(v, 8 * size); t.ilo = smin_(8 * size); t.ihi = smax_(8 * size);
    u32 r = N[m].ihi <= smax_(8 * size) ? m : mk(t);
    if (agrees(r, bits, size)) return r;
  }
  // mixed bytes: pin every integer part, give up on doubles
  for (u32 i = 0; i < size; ++i) {
    uint8_t o2 = 0; u32 i2 = getsh(a + i, o2);
    if (!i2) continue;
    if (N[i2].sort == REAL) inconclusive["partial load of a symbolic double"]++;
    else pin(i2);
  }
  return 0;
}
EXPORT void __vp_store(void* p, u32 size, u32 s) {
  if (!s && !anyshadow) return;
  ENTER0;
  if (s && nbytes(N[s]) != (int)size) {
    if (N[s].sort == BOOL) { /* i1 stored in a byte */ }
    else if (N[s].sort == REAL && size != 8) s = 0;
  }
  setsh((u64)p, size, s);
}
EXPORT void __vp_memcpy(void* d, void* s, u64 n) {
  if (!anyshadow || d == s) return;
  ENTER0;
  if (n > (1u << 26)) return;
  std::vector<u32> ids(n); std::vector<uint8_t> of(n);
  bool any = false;
  for (u64 i = 0; i < n; ++i) { uint8_t o = 0; ids[i] = getsh((u64)s + i, o); of[i] = o; any |= ids[i] != 0; }
  if (!any) { setsh((u64)d, n, 0); return; }
  for (u64 i = 0; i < n; ++i) { Page* p = page((u64)d + i, true); p->id[((u64)d + i) & 4095] = ids[i]; p->off[((u64)d + i) & 4095] = of[i]; }
}
EXPORT void __vp_memclr(void* d, u64 n) { if (!anyshadow) return; ENTER0; setsh((u64)d, n, 0); }
EXPORT void __vp_lifestart(void* d, u64 n) { if (!anyshadow || n > 4096) return; ENTER0; setsh((u64)d, n, 0); }
EXPORT void __vp_byval(void* d, void* s, u64 n, u32 ok) { if (!anyshadow) return; if (ok) __vp_memcpy(d, s, n); else __vp_memclr(d, n); }
EXPORT void __vp_touch(void* p, u64 n) {
  if (!anyshadow) return;
  ENTER0;
  for (u64 i = 0; i < n; ++i) {
    uint8_t o = 0; u32 id = getsh((u64)p + i, o);
    if (!id) continue;
    if (N[id].sort == REAL) inconclusive["memcmp over a symbolic double"]++;
    else pin(id);
  }
}
EXPORT void __vp_conc(u32 s, u32 w, i64 v) {
  if (!s) return;
  ENTER0; site(RA);
  if (N[s].sort == REAL) { inconclusive["symbolic double used as an index"]++; return; }
  pin(s);
}
EXPORT void __vp_divisor(u32 s, u32 w, i64 v) {
  if (!s) return;
  ENTER0; site(RA);
  u32 e = toint(s, v, w);
  if (isc(e)) return;
  if (N[e].ihi - N[e].ilo < 64 || N[e].ilo < 0) { pin(e); return; }
  branch(ieq(e, cI(0, w)), v == 0);
}
enum { A_Add = 13, A_FAdd = 14, A_Sub = 15, A_FSub = 16, A_Mul = 17, A_FMul = 18, A_UDiv = 19, A_SDiv = 20, A_FDiv = 21, A_URem = 22, A_SRem = 23, A_FRem = 24, A_Shl = 25, A_LShr = 26, A_AShr = 27, A_And = 28, A_Or = 29, A_Xor = 30 };

static u32 bitop(int k, u32 x, u32 y, int w) {
  i64 v = k == 0 ? (N[x].iv & N[y].iv) : k == 1 ? (N[x].iv | N[y].iv) : (N[x].iv ^ N[y].iv);
  if (isc(x) && isc(y)) return cI(v, w);
  if (isc(x)) std::swap(x, y);
  if (isc(y)) {
    i64 c = N[y].iv;
    if (k == 0 && c == 0) return y;
    if (k == 0 && c == -1) return x;
    if ((k == 1 || k == 2) && c == 0) return x;
    if (k == 0 && c > 0 && ((c + 1) & c) == 0) return imodf(x, cI(c + 1, 64), w);   // low mask
    if (k == 0 && c < 0 && c != INT64_MIN) { i64 p = -c; if ((p & (p - 1)) == 0) return isub(x, imodf(x, cI(p, w), w), w, true); }
    if (k == 2 && c == -1) return isub(cI(-1, w), x, w, true);
    if (k == 1 && N[x].ilo >= 0 && c > 0 && N[x].ihi < (c & -c)) return iadd(x, y, w, true);
    if (k == 1 && N[x].ilo >= 0 && c < 0 && N[x].ihi < (c & -c)) return iadd(x, y, w, true);
  }
  if (N[x].ilo >= 0 && N[y].ilo >= 0 && N[x].ihi <= 1 && N[y].ihi <= 1) {
    u32 bx = bnot(ieq(x, cI(0, w))), by = bnot(ieq(y, cI(0, w)));
    u32 b = k == 0 ? band(bx, by) : k == 1 ? bor(bx, by) : bxor(bx, by);
    return ite(b, cI(1, w), cI(0, w));
  }
  if (N[x].ilo >= 0 && N[y].ilo >= 0 && N[x].ihi < 65536 && N[y].ihi < 65536) {
    Node n = blank(IBV, INT, w); n.aux = k; n.a = x; n.b = y; n.iv = v;
    i128 m = std::max(N[x].ihi, N[y].ihi), p = 1; while (p <= m) p <<= 1;
    n.ilo = 0; n.ihi = p - 1;
    return mk(n);
  }
  pin(x); pin(y);
  return cI(v, w);
}
EXPORT u32 __vp_ibin(u32 op, u32 w, u32 fl, u32 sa, i64 a, u32 sb, i64 b) {
  if (!(sa | sb)) return 0;
  ENTER(0); site(RA);
  if (w == 1) {
    u32 x = tobool(sa, a & 1), y = tobool(sb, b & 1);
    switch (op) {
      case A_And: case A_Mul: return res(band(x, y));
      case A_Or: return res(bor(x, y));
      case A_Xor: case A_Add: case A_Sub: return res(bxor(x, y));
      default: pin(x); pin(y); return 0;
    }
  }
  u32 x = toint(sa, a, w), y = toint(sb, b, w);
  bool nsw = fl & 1;
  switch (op) {
    case A_Add: return res(iadd(x, y, w, nsw));
    case A_Sub: return res(isub(x, y, w, nsw));
    case A_Mul: return res(imul(x, y, w, nsw));
    case A_SDiv: case A_SRem: {
      if (!isc(y) && !(N[y].ilo > 0)) { pin(y); y = cI(b, w); }
      if (isc(y) && N[y].iv == 0) return 0;
      bool negc = isc(y) && N[y].iv < 0;
      if (negc) y = cI(-N[y].iv, w);
      u32 q;
      if (N[x].ilo >= 0) q = idivf(x, y, w);
      else { u32 nx = isub(cI(0, w), x, w, true); q = ite(ilt(x, cI(0, w), false), isub(cI(0, w), idivf(nx, y, w), w, true), idivf(x, y, w)); }
      if (negc) q = isub(cI(0, w), q, w, true);
      if (op == A_SDiv) return res(q);
      u32 yy = toint(isc(y) ? 0 : sb, b, w);
      return res(isub(x, imul(q, yy, w, true), w, true));
    }
    case A_UDiv: case A_URem: {
      u32 ux = uview(x, w), uy = uview(y, w);
      if (!ux || !uy || (!isc(uy) && !(N[uy].ilo > 0))) { pin(x); pin(y); return 0; }
      if (isc(uy) && N[uy].iv == 0) return 0;
      u32 q = op == A_UDiv ? idivf(ux, uy, 64) : imodf(ux, uy, 64);
      return res(fit(q, w, false, N[q].iv));
    }
    case A_Shl:
      if (!isc(y)) { pin(y); y = cI(b, w); }
      if (N[y].iv < 0 || N[y].iv >= (i64)w || N[y].iv > 62) { pin(x); return 0; }
      return res(imul(x, cI((i64)1 << N[y].iv, 64), w, nsw));
    case A_LShr: {
      if (!isc(y)) { pin(y); y = cI(b, w); }
      if (N[y].iv < 0 || N[y].iv >= (i64)w) { pin(x); return 0; }
      u32 ux = uview(x, w);
      if (!ux) { if (N[y].iv == 63) return res(ite(ilt(x, cI(0, w), false), cI(1, w), cI(0, w))); pin(x); return 0; }
      if (N[y].iv > 62) { pin(x); return 0; }
      return res(idivf(ux, cI((i64)1 << N[y].iv, 64), w));
    }
    case A_AShr:
      if (!isc(y)) { pin(y); y = cI(b, w); }
      if (N[y].iv < 0 || N[y].iv >= (i64)w || N[y].iv > 62) { pin(x); return 0; }
      return res(idivf(x, cI((i64)1 << N[y].iv, 64), w));
    case A_And: return res(bitop(0, x, y, w));
    case A_Or: return res(bitop(1, x, y, w));
    case A_Xor: return res(bitop(2, x, y, w));
  }
  pin(x); pin(y);
  return 0;
}
EXPORT u32 __vp_iabs(u32 w, u32 s, i64 a) {
  if (!s) return 0;
  ENTER(0);
  u32 x = toint(s, a, w);
  if (N[x].ilo >= 0) return res(x);
  return res(ite(ilt(x, cI(0, w), false), isub(cI(0, w), x, w, true), x));
}
EXPORT u32 __vp_icmp(u32 pred, u32 w, u32 sa, i64 a, u32 sb, i64 b) {
  if (!(sa | sb)) return 0;
  ENTER(0); site(RA);
  if (w == 1 && (pred == 32 || pred == 33)) {
    u32 x = bxor(tobool(sa, a & 1), tobool(sb, b & 1));
    return res(pred == 32 ? bnot(x) : x);
  }
  // raw-bits comparison of doubles used as integers
  if ((sa && N[sa].sort == REAL) || (sb && N[sb].sort == REAL)) { inconclusive["bits of a symbolic double compared as integers"]++; return 0; }
  u32 x = toint(sa, a, w), y = toint(sb, b, w);
  if (pred == 32) return res(ieq(x, y));
  if (pred == 33) return res(bnot(ieq(x, y)));
  if (pred >= 34 && pred <= 37) {
    u32 ux = uview(x, w), uy = uview(y, w);
    if (!ux || !uy) {
      // 64-bit unsigned order: compare sign classes, then values
      u32 nx = ilt(x, cI(0, w), false), ny = ilt(y, cI(0, w), false);
      // x <u y  <=>  (nx == ny) ? x < y : ny
      u32 lt = ite(bnot(bxor(nx, ny)), ilt(x, y, false), ny);
      u32 gt = ite(bnot(bxor(nx, ny)), ilt(y, x, false), nx);
      switch (pred) { case 34: return res(gt); case 35: return res(bnot(lt)); case 36: return res(lt); default: return res(bnot(gt)); }
    }
    x = ux; y = uy; pred += 4;
  }
  switch (pred) {
    case 38: return res(ilt(y, x, false));
    case 39: return res(ilt(y, x, true));
    case 40: return res(ilt(x, y, false));
    case 41: return res(ilt(x, y, true));
  }
  return 0;
}
EXPORT u32 __vp_icast(u32 kind, u32 f, u32 t, u32 s, i64 a) {
  if (!s) return 0;
  ENTER(0);
  if (N[s].sort == REAL) { inconclusive["bits of a symbolic double cast"]++; return 0; }
  if (kind == 2 && t == 1) {
    if (N[s].sort == BOOL) return s;
    if (N[s].ilo >= 0 && N[s].ihi <= 1) return res(bnot(ieq(s, cI(0, f))));
    u32 m = imodf(s, cI(2, 64), f); return res(ieq(m, cI(1, f)));
  }
  if (N[s].sort == BOOL) {
    if (f == 1) return kind == 0 ? ite(s, cI(1, t), cI(0, t)) : kind == 1 ? ite(s, cI(-1, t), cI(0, t)) : s;
    u32 x = ite(s, cI(1, t), cI(0, t)); return res(x);  // byte holding a bool
  }
  u32 x = s;
  Node n = N[x];
  if (kind == 1) { if (n.width == t) return x; }
  if (kind == 0) {
    u32 ux = uview(x, f);
    if (!ux) { pin(x); return 0; }
    x = ux; n = N[x];
  }
  if (kind == 2) { x = fit(x, t, false, N[x].iv); n = N[x]; }
  if (n.width == t) return res(x);
  // same value, other width: wrap in a unit ite-free copy (IADD 0)
  Node m = blank(IADD, INT, t); m.a = x; m.b = cI(0, t); m.iv = n.iv; m.ilo = n.ilo; m.ihi = n.ihi;
  if (n.op == CONST) return 0;
  if (n.op == ITE && isc(n.b) && isc(n.c)) return ite(n.a, cI(N[n.b].iv, t), cI(N[n.c].iv, t));
  return mk(m);
}
EXPORT u32 __vp_i2f(u32 sg, u32 w, u32 s, i64 a) {
  if (!s) return 0;
  ENTER(0);
  u32 x = toint(s, a, w);
  if (isc(x)) return 0;
  if (N[s].sort == BOOL && w == 1) return res(ite(s, cD(sg ? -1 : 1), cD(0)));
  if (!sg) { u32 u = uview(x, w); if (!u) { pin(x); return 0; } x = u; }
  if (N[x].op == ITE && isc(N[x].b) && isc(N[x].c)) return res(ite(N[x].a, cD((double)N[N[x].b].iv), cD((double)N[N[x].c].iv)));
  double lo = (double)N[x].ilo, hi = (double)N[x].ihi;
  return rnd(rnode(I2R, x, 0, (double)N[x].iv, lo, hi, 0));
}
static u32 r2i(u32 x, int w) {  // truncate a real to int (value assumed in range)
  if (isc(x)) return cI((i64)N[x].dv, w);
  auto fl = [&](u32 y) {
    if (N[y].op == I2R) return N[y].a;
    Node n = blank(R2I_FLOOR, INT, w); n.a = y; double f = floor(N[y].dv); n.iv = f > 9e18 || f < -9e18 ? INT64_MIN : (i64)f;
    double L = floor(N[y].lo), Hh = floor(N[y].hi);
    n.ilo = L < -9e18 ? smin_(64) : (i128)L; n.ihi = Hh > 9e18 ? smax_(64) : (i128)Hh;
    return mk(n);
  };
  if (N[x].lo >= 0) return fl(x);
  u32 ng = rneg(x);
  u32 a = fl(x), b = fl(ng);
  return ite(rlt(x, cD(0), false), isub(cI(0, w), b, w, true), a);
}
EXPORT u32 __vp_f2i(u32 sg, u32 w, u32 s, double a, i64 r) {
  if (!s) return 0;
  ENTER(0); site(RA);
  u32 x = toreal(s, a);
  if (isc(x)) return 0;
  // x86: out of range gives the "indefinite" value; separate that case
  int cw = w < 32 ? 32 : w;
  double L = sg ? -ldexp(1.0, cw - 1) - 1 : -1, Hh = ldexp(1.0, sg ? cw - 1 : cw);
  if (cw == 64 && sg) L = -9.3e18;
  u32 inr = band(rlt(cD(L), x, false), rlt(x, cD(Hh), false));
  if (!isc(inr)) branch(inr, N[inr].iv);
  if (!N[inr].iv) return 0;  // value pinned by hardware
  u32 e = r2i(x, w);
  // clip interval to the established range
  if (!isc(e)) { Node& n = N[e]; n.ilo = std::max(n.ilo, sg ? smin_(cw) : (i128)0); n.ihi = std::min(n.ihi, sg ? smax_(cw) : ((i128)1 << std::min(cw, 63))); }
  if (!sg && w == 64) { /* kept as is */ }
  u32 q = fit(e, w, false, N[e].iv);
  return res(q);
}
static void realconc(const char* why) { st.conc_real++; inconclusive[why]++; }
EXPORT u32 __vp_fbin(u32 op, u32 sa, double a, u32 sb, double b) {
  if (!(sa | sb)) return 0;
  ENTER(0); site(RA);
  u32 x = toreal(sa, a), y = toreal(sb, b);
  bool fa = std::isfinite(a), fb = std::isfinite(b);
  if (!fa || !fb) {
    if (std::isnan(a) || std::isnan(b)) return 0;
    if (op == A_FAdd || op == A_FSub) return 0;
    if (op == A_FMul || op == A_FDiv) {
      u32 s = fa ? x : y;
      if (!isc(s)) { branch(rlt(cD(0), s, false), N[s].dv > 0); if (!(N[s].dv > 0)) branch(rlt(s, cD(0), false), N[s].dv < 0); }
      return 0;
    }
    if (op == 11 || op == 12) return (op == 11) == (a < b) ? res(x) : res(y);
    realconc("non-finite operand");
    return 0;
  }
  switch (op) {
    case A_FAdd: return res(radd(x, y));
    case A_FSub: return res(rsub(x, y));
    case A_FMul: return res(rmul(x, y));
    case A_FDiv: {
      if (!isc(y)) branch(req(y, cD(0)), b == 0);
      if (b == 0) {
        if (!isc(x)) { branch(rlt(cD(0), x, false), a > 0); if (!(a > 0)) branch(rlt(x, cD(0), false), a < 0); }
        return 0;
      }
      return res(rdiv(x, y));
    }
    case 40: {
      if (isc(x) && isc(y)) return 0;
      if (x == y) return res(cD(0.0));
      return res(rnode(RFDIST, x, y, boost::math::float_distance(a, b), -1.7e308, 1.7e308, 0));
    }
    case A_FRem: case 10: {
      if (!isc(y) || b == 0) { realconc("fmod with symbolic divisor"); return 0; }
      double m = fabs(b);
      u32 q = rnode(RDIV, x, cD(m), N[x].dv / m, N[x].lo / m, N[x].hi / m, -3000);  // exact quotient
      u32 t = rtrunc(q);
      u32 p = rnode(RMUL, t, cD(m), N[t].dv * m, std::min(N[x].lo, 0.0), std::max(N[x].hi, 0.0), N[t].g + lsbexp(m));
      return res(rnode(RSUB, x, p, fmod(a, b), N[x].lo >= 0 ? 0 : -m, N[x].hi <= 0 ? 0 : m, std::min(N[x].g, lsbexp(m))));
    }
    case 11: return res(ite(rlt(x, y, true), x, y));
    case 12: return res(ite(rlt(y, x, true), x, y));
    case 13:
      if (isc(y) && (b == 1)) return res(x);
      if (isc(y) && b == 0) return 0;
      if (isc(y) && b == 2) return res(rmul(x, x));
      realconc("pow");
      return 0;
  }
  realconc("unmodelled float op");
  return 0;
}
EXPORT u32 __vp_fracpart(u32 s, double a) {
  if (!s) return 0;
  ENTER(0);
  u32 x = toreal(s, a);
  if (isc(x)) return 0;
  u32 t = rtrunc(x);
  double ip;
  return res(rnode(RSUB, x, t, modf(a, &ip), N[x].lo >= 0 ? 0 : -1, N[x].hi <= 0 ? 0 : 1, N[x].g));
}
EXPORT u32 __vp_fun(u32 op, u32 s, double a) {
  if (!s) return 0;
  ENTER(0); site(RA);
  u32 x = toreal(s, a);
  if (isc(x) || !std::isfinite(a)) return 0;
  switch (op) {
    case 1: return res(rneg(x));
    case 2: return res(rabs(x));
    case 3: return res(rfloor(x));
    case 4: return res(rneg(rfloor(rneg(x))));
    case 5: return res(rtrunc(x));
    case 6: {  // round half away from zero (exact: no double rounding in the real encoding)
      auto half = [&](u32 y) { u32 h = rnode(RADD, y, cD(0.5), N[y].dv + 0.5, N[y].lo + 0.5, N[y].hi + 0.5, std::min(N[y].g, -1)); u32 f = rfloor(h); N[f].dv = round(N[y].dv); return f; };
      if (N[x].lo >= 0) return res(half(x));
      u32 nx = rneg(x);
      return res(ite(rlt(x, cD(0), false), rneg(half(nx)), half(x)));
    }
    case 7: {  // round half to even
      if (N[x].g >= 0) return res(x);
      u32 h = rnode(RADD, x, cD(0.5), a + 0.5, N[x].lo + 0.5, N[x].hi + 0.5, std::min(N[x].g, -1)), f = rfloor(h);
      N[f].dv = floor(a) + (a - floor(a) >= 0.5);
      u32 f2 = rnode(RMUL, f, cD(0.5), N[f].dv * 0.5, N[f].lo * 0.5, N[f].hi * 0.5, -1), e = rfloor(f2);
      return res(ite(band(req(h, f), bnot(req(f2, e))), rnode(RSUB, f, cD(1.0), N[f].dv - 1, N[f].lo - 1, N[f].hi - 1, 0), f));
    }
    case 8: {
      if (N[x].lo < 0) branch(rlt(x, cD(0), false), a < 0);
      if (a < 0) return 0;
      return res(rnd(rnode(RSQRT, x, 0, sqrt(a), sqrt(std::max(0.0, N[x].lo)), sqrt(std::max(0.0, N[x].hi)), -3000)));
    }
  }
  static const char* nm[] = {"exp", "log", "log10", "sin", "cos"};
  realconc(op >= 20 && op <= 24 ? nm[op - 20] : "unmodelled float function");
  return 0;
}
EXPORT u32 __vp_fcmp(u32 pred, u32 sa, double a, u32 sb, double b) {
  if (!(sa | sb)) return 0;
  ENTER(0); site(RA);
  if (!std::isfinite(a) || !std::isfinite(b)) return 0;
  u32 x = toreal(sa, a), y = toreal(sb, b);
  switch (pred & 7) {
    case 0: return pred >= 8 ? 0 : 0;   // false / uno
    case 1: return res(req(x, y));
    case 2: return res(rlt(y, x, false));
    case 3: return res(rlt(y, x, true));
    case 4: return res(rlt(x, y, false));
    case 5: return res(rlt(x, y, true));
    case 6: return res(bnot(req(x, y)));
    default: return 0;                    // ord / true
  }
}
EXPORT u32 __vp_ited(u32 sc, u32 c, u32 st_, double t, u32 sf, double f) {
  if (!sc) return c ? st_ : sf;
  ENTER(0); site(RA);
  u32 k = tobool(sc, c);
  if (!std::isfinite(t) || !std::isfinite(f)) { branch(k, c); return c ? st_ : sf; }
  return res(ite(k, toreal(st_, t), toreal(sf, f)));
}
EXPORT u32 __vp_itei(u32 w, u32 sc, u32 c, u32 st_, i64 t, u32 sf, i64 f) {
  if (!sc) return c ? st_ : sf;
  ENTER(0); site(RA);
  u32 k = tobool(sc, c);
  if ((st_ && N[st_].sort == REAL) || (sf && N[sf].sort == REAL)) { branch(k, c); return c ? st_ : sf; }
  if (w == 1) return res(ite(k, tobool(st_, t & 1), tobool(sf, f & 1)));
  return res(ite(k, toint(st_, t, w), toint(sf, f, w)));
}
EXPORT void __vp_branch(u32 s, u32 c) {
  if (!s) return;
  ENTER0; site(RA);
  u32 k = tobool(s, c);
  if (!isc(k) && (bool)N[k].iv != (bool)c) { inconclusive["shadow/concrete mismatch at a branch"]++; finish(0); }
  branch(k, c);
}
EXPORT u32 __vp_getret(void* callee, u32 isd, u32 w, i64 bits) {
  if (__vp_rettag != callee) return 0;
  u32 s = __vp_ret[0];
  if (!s) return 0;
  ENTER(0);
  if (N[s].sort == BOOL ? ((bits & 1) != N[s].iv) : !agrees(s, bits, w < 8 ? 1 : w / 8)) { st.stale++; return 0; }
  return s;
}
// instrumented functions of the program under test (section vp_fns)
static std::unordered_set<void*> instrumented;
EXPORT void __vp_register(void** b, void** e);
void __vp_register(void** b, void** e) { for (; b != e; ++b) instrumented.insert(*b); }
// before a call with a symbolic argument: code we cannot see gets pinned integers
EXPORT void __vp_precall(u32 orv, void* callee, const char* name, u32 nslots) {
  if (!orv) return;
  ENTER0; site(RA);
  if (instrumented.count(callee)) return;
  std::string nm = name ? name : "?";
  if (nm.compare(0, 7, "vp_sym_") == 0) return;
  for (u32 i = 0; i < nslots && i < 48; ++i) {
    u32 s = __vp_args[i];
    if (!s) continue;
    if (N[s].sort == REAL) {
      extcalls[nm]++;
      static const char* benign[] = {"_ZNSolsEd", "_ZNSo9_M_insertIdEERSoT_", "printf", "fprintf", "snprintf", "__cxa_guard_acquire"};
      bool ok = false;
      for (auto b : benign) if (nm == b) ok = true;
      if (!ok) inconclusive["symbolic double passed to uninstrumented " + nm]++;
    } else { u32 keep[48]; memcpy(keep, __vp_args, sizeof keep); pin(s); memcpy(__vp_args, keep, sizeof keep); __vp_args[i] = 0; }
  }
}

// ------------------------------------------------------------------ harness API
static int g_tier = 0;
static u64 g_seed = 1;
static u64 rng(u64 i) { u64 z = (g_seed * 1000003 + i + 1) * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
EXPORT double vp_sym_double(const char* name, double lo, double hi, int grid);
EXPORT i64 vp_sym_int(const char* name, i64 lo, i64 hi);
double vp_sym_double(const char* name, double lo, double hi, int grid) {
  Guard g;
  u32 ix = inputs.size();
  lo = ldexp(ceil(ldexp(lo, -grid)), grid); hi = ldexp(floor(ldexp(hi, -grid)), grid);
  Input in; in.name = name; in.isd = true; in.lo = lo; in.hi = hi; in.grid = grid; in.iv = 0;
  // a value left over from another input of this number (the paths differ before it) is only a suggestion
  if (ix < cur.vals.size() && cur.vals[ix].isd) in.dv = std::min(hi, std::max(lo, ldexp(rint(ldexp(cur.vals[ix].d, -grid)), grid)));
  else {
    double f = (rng(ix) >> 11) * 0x1p-53;
    // small values are as likely as large ones
    in.dv = lo + (hi - lo) * f * f;
    in.dv = std::min(hi, std::max(lo, ldexp(rint(ldexp(in.dv, -grid)), grid)));
  }
  Node n = blank(INPUT, REAL, 64); n.in = ix; n.dv = in.dv; n.lo = lo; n.hi = hi; n.g = grid;
  in.node = mk(n);
  inputs.push_back(in);
  __vp_ret[0] = lo == hi ? 0 : in.node;
  __vp_rettag = (void*)&vp_sym_double;
  active = true;
  return in.dv;
}
i64 vp_sym_int(const char* name, i64 lo, i64 hi) {
  Guard g;
  u32 ix = inputs.size();
  Input in; in.name = name; in.isd = false; in.ilo = lo; in.ihi = hi; in.dv = 0;
  in.iv = ix < cur.vals.size() && !cur.vals[ix].isd && cur.vals[ix].i >= lo && cur.vals[ix].i <= hi ? cur.vals[ix].i : lo;
  Node n = blank(INPUT, INT, 64); n.in = ix; n.iv = in.iv; n.ilo = lo; n.ihi = hi;
  in.node = mk(n);
  inputs.push_back(in);
  __vp_ret[0] = lo == hi ? 0 : in.node;
  __vp_rettag = (void*)&vp_sym_int;
  active = true;
  return in.iv;
}
EXPORT i64 vp_sym_pin(i64 v);
i64 vp_sym_pin(i64 v) {
  u32 s = __vp_callee == (void*)&vp_sym_pin ? __vp_args[0] : 0;
  if (s) { Guard g; pin(toint(s, v, 64)); }
  __vp_ret[0] = 0; __vp_rettag = (void*)&vp_sym_pin;
  return v;
}
EXPORT void vp_sym_assume(bool c);
EXPORT void vp_sym_assert(bool c, const char* label);
void vp_sym_assume(bool c) {
  u32 s = __vp_callee == (void*)&vp_sym_assume ? __vp_args[0] : 0;
  Guard g;
  u32 k = tobool(s, c);
  if (!s || isc(k)) { if (!c) { st.assume_kill++; finish(0); } return; }
  if (c) { Z3_ast z = tr(k); flush(); bassert(z); bnodes.push_back(k); return; }
  // the run violates the assumption: ask for one that does not, then stop
  if (nbr >= cur.bound) {
    Vals v;
    int r = query(k, v);
    if (r == 1) {
      if (cur.retry < 4) { outbuf += 'N'; putv<u32>(nbr); putv<u64>(phash); putv<u32>(cur.retry + 1); putvals(v); }
      else inconclusive["assumption not met by the real arithmetic (rounding)"]++;
    }
    else if (r < 0) inconclusive["assume query unknown"]++;
  }
  st.assume_kill++;
  finish(0);
}
void vp_sym_assert(bool c, const char* label) {
  u32 s = __vp_callee == (void*)&vp_sym_assert ? __vp_args[0] : 0;
  Guard g;
  u32 k = tobool(s, c);
  __vp_rettag = (void*)&vp_sym_assert;
  assertlab[label]++;
  if (!c) { emit_viol(label, curvals(), 0); finish(0); }
  if (!s || isc(k)) { st.asserts_conc++; return; }
  st.asserts_sym++;
  if (nbr < cur.bound) { /* decided on the parent path already */ 
    Z3_ast z = tr(k); flush(); bassert(z); bnodes.push_back(k); return; }
  Vals v;
  int r = query(bnot(k), v);
  if (r == 1) { emit_viol(label, v, 1); }
  else if (r == 0) st.assert_proved++;
  else { st.assert_unknown++; inconclusive[std::string("assertion query unknown: ") + label]++; }
  Z3_ast z = tr(k); flush(); bassert(z); bnodes.push_back(k);
}
EXPORT void vp_sym_reach(const char* l) { Guard g; reached[l]++; }
EXPORT void vp_sym_note(const char*, double) {}
EXPORT int vp_sym_tier() { __vp_ret[0] = 0; __vp_rettag = nullptr; return g_tier; }

// ------------------------------------------------------------------ coordinator
typedef void (*harness_fn)();
struct Kid { pid_t pid; int fd; std::string buf; double t0; Item it; };
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string jvals(const Vals& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    char b[64];
    if (v[i].isd) snprintf(b, 64, "%.17g", v[i].d); else snprintf(b, 64, "%lld", (long long)v[i].i);
    if (i) r += ",";
    r += v[i].isd ? std::string("{\"d\":") + b + "}" : std::string("{\"i\":") + b + "}";
  }
  return r + "]";
}
static void onsig(int sg) {
  for (int s2 : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) signal(s2, SIG_DFL);
  alarm(3);
  sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM); sigprocmask(SIG_UNBLOCK, &m, nullptr);
  inrt = true;
  char b[64];
  if (sg == SIGALRM) snprintf(b, 64, "path time limit"); else snprintf(b, 64, "crash: signal %d", sg);
  emit_viol(b, curvals(), sg == SIGALRM ? 4 : 3);
  finish(0);
}
static void child(harness_fn h, const Item& it, int fd, unsigned pathsec) {
  cur = it;
  outfd = fd;
  sol = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, sol);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), qtimeout);
  Z3_solver_set_params(ctx, sol, p);
  static char alt[1 << 16];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  for (int sg : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_RESETHAND; sigaction(sg, &sa, nullptr);
  }
  alarm(pathsec);
  try {
    h();
  } catch (std::exception& e) {
    inrt = true;
    emit_viol(std::string("uncaught exception: ") + e.what(), curvals(), 2);
    finish(0);
  }
  inrt = true;
  finish(0);
}
static void addmap(std::map<std::string, u64>& m, const char*& p) {
  u32 n; memcpy(&n, p, 4); p += 4;
  while (n--) { u32 l; memcpy(&l, p, 4); p += 4; std::string s(p, l); p += l; u64 v; memcpy(&v, p, 8); p += 8; m[s] += v; }
}
static Vals getvals(const char*& p) {
  u32 n; memcpy(&n, p, 4); p += 4;
  Vals v(n);
  for (auto& x : v) { x.isd = *p++; x.d = 0; x.i = 0; if (x.isd) memcpy(&x.d, p, 8); else memcpy(&x.i, p, 8); p += 8; }
  return v;
}
static void addstats(Stats& a, const Stats& b) {
  const u64* q = (const u64*)&b; u64* w = (u64*)&a;
  size_t nu = offsetof(Stats, solver) / 8;
  for (size_t i = 0; i < nu; ++i) w[i] += q[i];
  a.solver += b.solver; a.maxq = std::max(a.maxq, b.maxq);
}
struct Viol { std::string label; int kind; Vals v; };
EXPORT int vp_run(harness_fn h, int argc, char** argv);
int vp_run(harness_fn h, int argc, char** argv) {
  int jobs = 8; double deadline = 60; unsigned pathsec = 60; u64 maxpaths = ~0ull; double grace = 8; std::string out; std::set<std::string> known;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return argv[++i]; };
    if (a == "--jobs") jobs = atoi(nx());
    else if (a == "--deadline") deadline = atof(nx());
    else if (a == "--pathsec") pathsec = atoi(nx());
    else if (a == "--maxpaths") maxpaths = atoll(nx());
    else if (a == "--seed") g_seed = atoll(nx());
    else if (a == "--tier") g_tier = atoi(nx());
    else if (a == "--qtimeout") qtimeout = atoi(nx());
    else if (a == "--grace") grace = atof(nx());
    else if (a == "--known") known.insert(nx());
    else if (a == "--out") out = nx();
  }
  N.reserve(1 << 16);
  N.push_back(blank(CONST, INT, 64));
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, zerr);
  zI = Z3_mk_int_sort(ctx); zR = Z3_mk_real_sort(ctx);
  signal(SIGPIPE, SIG_IGN);
  double t0 = now();
  std::deque<Item> q;
  q.push_back(Item());
  std::vector<Kid> kids;
  Stats tot;
  u64 paths = 0, crashes = 0, timeouts = 0, complete = 0, maxdepth = 0;
  std::vector<Viol> viols;
  std::map<std::string, int> viol_labels;
  double first_viol = -1;
  u64 rng = g_seed * 0x9E3779B97F4A7C15ull + 1;
  auto violate = [&](const std::string& l, int kd, const Vals& v) {
    // a solver model (kind 1) is first executed; the run that fails the assertion counts
    if (kd == 1) {
      if (viol_labels["?" + l]++ < 12) { viols.push_back({l, kd, v}); Item it; it.vals = v; it.bound = 0xffffffffu; q.push_back(it); }
      return;
    }
    if (first_viol < 0 && !known.count(l)) first_viol = now();
    if (viol_labels[l]++ < 6) viols.insert(viols.begin(), {l, kd, v});
  };
  std::map<std::string, u64> inc, rea, asl, ext;
  std::unordered_set<u64> pathhashes, pushed;
  std::unordered_set<void*> allsites;
  std::vector<Vals> samples, divs;
  bool cut = false;
  while (!q.empty() || !kids.empty()) {
    bool over = now() - t0 > deadline || paths >= maxpaths || (first_viol >= 0 && now() - first_viol > grace);
    if (over && !q.empty()) { cut = true; q.clear(); }
    while (!q.empty() && (int)kids.size() < jobs) {
      // half depth first, half anywhere in the frontier: a cut exploration stays diverse
      if (kids.size() % 2) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; std::swap(q[rng % q.size()], q.back()); }
      Item it = q.back(); q.pop_back();
      int fd[2];
      if (pipe(fd)) { perror("pipe"); return 2; }
      fflush(stdout); fflush(stderr);
      pid_t pid = fork();
      if (pid == 0) {
        close(fd[0]);
        for (auto& k : kids) close(k.fd);
        child(h, it, fd[1], pathsec);
        _exit(0);
      }
      if (pid < 0) { perror("fork"); return 2; }
      close(fd[1]);
      kids.push_back({pid, fd[0], "", now(), it});
    }
    if (kids.empty()) break;
    std::vector<struct pollfd> pf;
    for (auto& k : kids) pf.push_back({k.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (int i = (int)kids.size() - 1; i >= 0; --i) {
      if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) {
        if (now() - t0 > deadline + pathsec) { kill(kids[i].pid, SIGKILL); }
        continue;
      }
      char b[65536];
      ssize_t n = read(kids[i].fd, b, sizeof b);
      if (n > 0) { kids[i].buf.append(b, n); continue; }
      close(kids[i].fd);
      int stt = 0;
      waitpid(kids[i].pid, &stt, 0);
      Kid k = kids[i];
      kids.erase(kids.begin() + i);
      pf.erase(pf.begin() + i);
      paths++;
      const char *p = k.buf.data(), *e = p + k.buf.size();
      bool done = false;
      while (p < e && !done) {
        switch (*p++) {
          case 'N': {
            Item it; memcpy(&it.bound, p, 4); p += 4; memcpy(&it.hash, p, 8); p += 8; memcpy(&it.retry, p, 4); p += 4; it.vals = getvals(p);
            if (it.retry || pushed.insert(mix(it.hash, it.bound)).second) q.push_back(it);
            break;
          }
          case 'V': {
            u32 l; memcpy(&l, p, 4); p += 4; std::string s(p, l); p += l; int kd; memcpy(&kd, p, 4); p += 4;
            Vals v = getvals(p);
            violate(s, kd, v);
            break;
          }
          case 'S': { Stats s; memcpy((void*)&s, p, sizeof s); p += sizeof s; addstats(tot, s); break; }
          case 'I': addmap(inc, p); break;
          case 'R': addmap(rea, p); break;
          case 'A': addmap(asl, p); break;
          case 'X': addmap(ext, p); break;
          case 'P': { u32 n2; memcpy(&n2, p, 4); p += 4; while (n2--) { void* x; memcpy(&x, p, 8); p += 8; allsites.insert(x); } break; }
          case 'D': divs.push_back(getvals(p)); break;
          case 'H': {
            u64 hh; memcpy(&hh, p, 8); p += 8; u32 nb; memcpy(&nb, p, 4); p += 4; pathhashes.insert(hh); maxdepth = std::max<u64>(maxdepth, nb);
            Vals v = getvals(p);
            if (samples.size() < 5) samples.push_back(v);
            break;
          }
          case 'E': done = true; break;
          default: fprintf(stderr, "protocol error\n"); return 2;
        }
      }
      if (done) complete++;
      else {
        // died before finishing: crash, time limit, solver error
        Vals v = k.it.vals;
        if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) { timeouts++; inc["path killed"]++; }
        else if (WIFSIGNALED(stt)) { crashes++; char b2[64]; snprintf(b2, 64, "crash: signal %d", WTERMSIG(stt)); violate(b2, 3, v); }
        else if (WEXITSTATUS(stt) == 79) { timeouts++; violate("path time limit", 4, v); }
        else { char b2[64]; snprintf(b2, 64, "path ended with status %d", WEXITSTATUS(stt)); violate(b2, 5, v); }
      }
    }
  }
  double wall = now() - t0;
  std::string j = "{";
  auto num = [&](const char* k, double v) { char b[96]; snprintf(b, 96, "\"%s\":%.10g,", k, v); j += b; };
  num("paths", paths); num("distinct_paths", pathhashes.size()); num("complete", complete); num("max_depth", maxdepth); num("branches", tot.branches); num("folded", tot.folded);
  num("queries", tot.queries); num("sat", tot.sat); num("unsat", tot.unsat); num("unknown", tot.unknown); num("asserts_symbolic", tot.asserts_sym);
  num("asserts_concrete", tot.asserts_conc); num("asserts_proved", tot.assert_proved); num("asserts_unknown", tot.assert_unknown); num("phase2", tot.phase2); num("roundings", tot.rounds);
  num("assume_killed", tot.assume_kill); num("pinned_ints", tot.conc_int); num("concretised_reals", tot.conc_real); num("stale_shadows", tot.stale); num("offgrid", tot.offgrid);
  num("diverged", tot.diverged); num("nonlinear_ops", tot.nl); num("overflow_guard", tot.overflow); num("solver_s", tot.solver); num("max_query_s", tot.maxq); num("crashes", crashes); num("timeouts", timeouts); num("wall_s", wall);
  j += std::string("\"exhausted\":") + (cut ? "false" : "true") + ",";
  auto mp = [&](const char* k, std::map<std::string, u64>& m) { j += std::string("\"") + k + "\":{"; bool f = true; for (auto& x : m) { if (!f) j += ","; f = false; j += jstr(x.first) + ":" + std::to_string(x.second); } j += "},"; };
  mp("inconclusive", inc); mp("reached", rea); mp("assert_labels", asl); mp("external_calls", ext);
  j += "\"sites\":["; { bool f = true; for (auto x : allsites) { char b[32]; snprintf(b, 32, "%s%llu", f ? "" : ",", (unsigned long long)x); f = false; j += b; } } j += "],";
  j += "\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + jvals(samples[i]); j += "],";
  j += "\"divergences\":["; for (size_t i = 0; i < divs.size() && i < 5; ++i) j += (i ? "," : "") + jvals(divs[i]); j += "],";
  j += "\"violations\":[";
  for (size_t i = 0; i < viols.size(); ++i) j += (i ? "," : "") + std::string("{\"label\":") + jstr(viols[i].label) + ",\"kind\":" + std::to_string(viols[i].kind) + ",\"inputs\":" + jvals(viols[i].v) + "}";
  j += "]}\n";
  if (out.empty()) fputs(j.c_str(), stdout);
  else { FILE* f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(j.c_str(), f); fclose(f); }
  return 0;
}
