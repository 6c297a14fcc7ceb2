// C18: how many packages a transport unit lets through.
#include "common.h"
using namespace vph;
void vp_harness() {
  warn_limit = 0;
  Sim e;
  e.init();
  static const char* kS[] = {"first", "equal", "hybrid"};
  int st = vp_choose("strategy", 0, 2);
  int top = vp_sym_tier() ? 8 : 5;
  int fmin = vp_choose("min", -1, top), fmax = vp_choose("max", -1, top + 1);
  if (fmax == top + 1) fmax = std::numeric_limits<int>::max();
  Out o = attempt([&] { e.ctx->AddTransportUnit("unit", fmin, fmax, kS[st]); });
  vp_assert((o == OK) == (fmin >= 0 && fmin <= fmax), "a transport unit can be defined exactly with 0 <= minimum <= maximum");
  if (o != OK) { vp_assert(o == VALUE, "unsound limits raise ValueError"); vp_reach("refused"); return; }
  TransportUnit::Ptr u = e.ctx->GetTransportUnit("unit");
  vp_assert(u->fill_min() == fmin && u->fill_max() == fmax && u->strategy() == kS[st], "a transport unit keeps its limits");
  int n = vp_int("packages", 0, vp_sym_tier() ? 40 : 24);
  vp_assert(e.ctx->GetTransportUnit(TransportUnit::unrestricted_name())->MaxShippablePackages(n) == n, "an unrestricted transport unit lets everything through");
  int s = u->MaxShippablePackages(n);
  vp_assert((s >= 0) & (s <= n), "no more packages are let through than there are");
  // can s packages be divided into units within the limits?
  int low = fmin < 1 ? 1 : fmin;
  bool fits = s == 0;
  int best = 0;
  for (int k = 1; k <= 40; ++k) {
    int64_t hi = (int64_t)k * fmax, lo = (int64_t)k * low;
    fits |= (s >= lo) & (s <= hi);
    int64_t b = n < hi ? n : hi;      // the most that k units can take
    if ((b >= lo) & (b > best)) best = b;
  }
  vp_assert(fits, "what is let through fills transport units within their limits");
  if (st == 0) {
    vp_assert(s == (fmax == 0 ? 0 : n < fmin ? 0 : n - n % fmax), "filling one by one ships full units only");
  } else if (st == 1) {
    vp_assert((s > 0) == (best > 0), "something is shipped whenever a unit can be filled");
    int f = u->GetTransportUnitFill(n);
    vp_assert((s == 0) | (f > 0), "units are filled alike");
    if (s > 0) vp_assert(s % f == 0 && f >= fmin && f <= fmax && n - s < f, "units are filled alike, as many as there are packages for");
    if (best > 0) {
      // the fewest units that could take everything, and an even share of the packages
      int64_t k = 1;
      while (k * fmax < n) k++;
      int64_t even = k * low <= n ? n / k : fmax;
      vp_assert(s == n - n % even, "packages are shared evenly among the fewest units that could take all, or fill units to the maximum");
    }
  } else {
    vp_assert(s == best, "filling flexibly ships as many packages as any division could");
    if (s == n && n > fmax) vp_reach("all shipped");
  }
  if (s > 0 && s < n) vp_reach("some left behind");
  delete e.ctx;
}
