// C17: filling packages, packaging resources, changing packages.
#include "common.h"
#include "toolkit/res_buf.h"
using namespace vph;
static const int G = -10;
static const double kMax[] = {1, 3, 4, 1e10};
static const double kMin[] = {0, 1, 3};
static const char* kStrat[] = {"first", "equal", "uniform", "normal"};
static const double kTol = 1e-9;

template <class R> typename R::Ptr make(Agent* a, double q);
template <> Material::Ptr make<Material>(Agent* a, double q) {
  CompMap v; v[922350000] = 1;
  return Material::Create(a, q, Composition::CreateFromMass(v));
}
template <> Product::Ptr make<Product>(Agent* a, double q) { return Product::Create(a, q, "stuff"); }

template <class R> void packaging(Sim& e, Agent* f, Package::Ptr p, double q, double fmin, double fmax, int st) {
  typename R::Ptr r = make<R>(f, q);
  std::vector<typename R::Ptr> out = r->template Package<R>(p);
  double sum = 0, low = 1e300;
  bool within = true;
  for (size_t i = 0; i < out.size(); ++i) {
    double m = out[i]->quantity();
    sum += m;
    within &= (m >= fmin - eps_rsrc()) & (m <= fmax + kTol) & (m > 0);
    vp_assert(out[i]->package_name() == "box", "a packaged part carries its package's name");
  }
  vp_assert(r->package_name() == Package::unpackaged_name(), "what is left over stays as it was");
  vp_assert(within, "every package is filled within its limits");
  vp_assert(near(sum + r->quantity(), q, kTol), "packaging conserves the quantity");
  double left = r->quantity();
  vp_assert((left >= -kTol) & ((left < eps_rsrc()) | (left < fmin + kTol) | (out.empty() & (q < fmin))), "what is left over cannot fill a package");
  size_t n = out.size();
  if (st == 0) {
    // all of this is exact on the grid
    vp_assert((left < fmin) | (left < eps_rsrc()), "what fills a package exactly is packaged");
    bool full = true;
    for (size_t i = 0; i + 1 < n; ++i) full &= out[i]->quantity() == fmax;
    vp_assert(full, "packages are filled to the maximum one by one");
  } else if (st == 1 && n) {
    // the least number of packages that takes everything, if that number can be filled
    int k = 0;
    while ((double)k * fmax < q - kTol && k < 60) k++;
    if (k > 0 && (double)k * fmin <= q - kTol) {
      vp_assert(n == (size_t)k, "an even filling uses as few packages as possible");
      bool even = true;
      for (size_t i = 0; i < n; ++i) even &= near(out[i]->quantity() * k, q, kTol);
      vp_assert(even, "an even filling fills all packages alike");
      vp_reach("even filling");
    } else if (k > 0 && (double)k * fmin > q + kTol) {
      bool full = true;
      for (size_t i = 0; i + 1 < n; ++i) full &= out[i]->quantity() == fmax;
      vp_assert(full, "where no even filling fits, packages are filled to the maximum");
      vp_reach("no even filling");
    }
  }
  if (n > 1) vp_reach("several packages");
  if (n && left >= eps_rsrc()) vp_reach("left over");
  if (!n) vp_reach("nothing packaged");
}

template <class R> void changing(Sim& e, Agent* f, double q) {
  // the same resource from package to package, and through buffers
  e.ctx->AddPackage("small", 0, 2, "first");
  e.ctx->AddPackage("large", 4, 8, "first");
  static const char* kName[] = {"unpackaged", "small", "large"};
  static const double lo[] = {0, 0, 4}, hi[] = {1e300, 2, 8};
  typename R::Ptr r = make<R>(f, q);
  std::string now = "unpackaged";
  for (int k = 0; k < (vp_sym_tier() ? 4 : 3); ++k) {
    int to = vp_choose("to", 0, 2);
    bool same = now == kName[to];
    Out o = attempt([&] { r->ChangePackage(kName[to]); });
    vp_assert(o == OK || o == VALUE, "a change of package succeeds or raises ValueError");
    vp_assert((o == OK) == (same | ((q >= lo[to]) & (q <= hi[to]))), "a package accepts exactly the quantities within its limits");
    if (o == OK) now = kName[to]; else vp_reach("outside the limits");
    vp_assert(r->package_name() == now && r->quantity() == q, "a change of package changes nothing else");
  }
  int mode = vp_choose("buffer", 0, 3);
  toolkit::ResBuf<R> buf(mode == 2);
  if (mode == 1 || mode == 3) buf.keep_packaging(true);
  if (mode == 3) { std::vector<typename R::Ptr> v(1, r); buf.Push(v); } else buf.Push(r);
  vp_assert(r->package_name() == (mode == 1 || mode == 3 ? now : "unpackaged"), "a buffer strips packages unless it keeps them");
  vp_assert(attempt([&] { toolkit::ResBuf<R> b(true); b.keep_packaging(true); }) == VALUE, "a bulk buffer cannot keep packages");
  vp_reach("buffer");
}

void vp_harness() {
  warn_limit = 0;
  Sim e;
  e.init();
  HFac* f = new HFac(e.ctx);
  int what = vp_choose("what", 0, 3);
  if (what < 2) {
    int st = vp_choose("strategy", 0, 3), a = vp_choose("min", 0, 2), b = vp_choose("max", 0, 3);
    double fmin = kMin[a], fmax = kMax[b];
    Out o = attempt([&] { e.ctx->AddPackage("box", fmin, fmax, kStrat[st]); });
    if (fmin > fmax) { vp_assert(o == VALUE, "a package's minimum cannot exceed its maximum"); return; }
    if (st >= 2 && fmin == fmax) { vp_assert(o == VALUE, "a random filling needs a range"); return; }
    vp_assert(o == OK, "a package with sound limits can be defined");
    double top = vp_sym_tier() ? 24 : 12;
    double most = (st == 1 ? 3 : st >= 2 ? 1.5 : 4) * fmax;
    if (top > most) top = most;
    double q = vp_double("qty", 0, top, G);
    if (st >= 2 && b == 3) return;
    vp_draws_symbolic(st >= 2 && fmin > 0 ? (st == 2 ? 12 : 4) : 0);
    if (what == 0) packaging<Material>(e, f, e.ctx->GetPackage("box"), q, fmin, fmax, st);
    else if (st >= 2) {
      std::vector<double> fills = e.ctx->GetPackage("box")->GetFillMass(q);
      double sum = 0;
      bool within = true;
      for (size_t i = 0; i < fills.size(); ++i) {
        sum += fills[i];
        within &= (fills[i] >= fmin - eps_rsrc()) & (fills[i] <= fmax + kTol) & (fills[i] > 0);
      }
      vp_assert(within, "every fill is within the package's limits");
      vp_assert(sum <= q + kTol, "the fills do not add up to more than there is");
      vp_assert((q - sum < fmin + kTol) | (q - sum < eps_rsrc()), "fills leave nothing that fills a package");
      vp_reach("fills");
    } else packaging<Product>(e, f, e.ctx->GetPackage("box"), q, fmin, fmax, st);
    vp_draws_symbolic(0);
  } else if (what == 2) {
    changing<Material>(e, f, vp_double("qty", 0, 16, -26));
  } else {
    changing<Product>(e, f, vp_double("qty", 0, 16, -26));
  }
  delete e.ctx;
}
