// C20: what a sell policy offers and hands over.
#include "common.h"
#include "toolkit/matl_sell_policy.h"
using namespace vph;
using toolkit::ResBuf;
using toolkit::MatlSellPolicy;
static const int G = -4;
static double lower(double a, double b) { return a < b ? a : b; }
static const double kTol = 1e-9;
enum Mode { PLAIN, QUANT, FIRST, EQUAL, UNIFORM };
static const char* kPkg[] = {"unpackaged", "unpackaged", "first", "equal", "uniform"};
static const double kMin[] = {0, 0, 1, 3, 1}, kMax[] = {1e300, 1e300, 2, 4, 2};

// the packages a quantity fills (not for random filling)
static std::vector<double> fills(int mode, double q) {
  std::vector<double> v;
  if (q < kMin[mode]) return v;
  if (mode == FIRST) {
    while (q >= kMax[mode]) { v.push_back(kMax[mode]); q -= kMax[mode]; }
    if (q >= kMin[mode] && q >= eps_rsrc()) v.push_back(q);
  } else if (mode == EQUAL) {
    int n = 1;
    while (n * kMax[mode] < q) n++;
    if (n * kMin[mode] <= q) v.assign(n, q / n);
    else { while (q >= kMax[mode]) { v.push_back(kMax[mode]); q -= kMax[mode]; } if (q >= kMin[mode]) v.push_back(q); }
  } else {
    v.push_back(q);
  }
  return v;
}

// how many of n packages the transport unit takes
static size_t shippable(int mode, size_t n) {
  if (mode != QUANT) return n - n % 2;   // pairs
  size_t k = (n + 2) / 3;                // as few units of at most three as possible, all filled alike
  return n ? n - n % (n / k) : 0;
}

static void run(Sim& e, HFac* f, Composition::Ptr ca, Composition::Ptr cb) {
  int mode = vp_choose("mode", PLAIN, UNIFORM);
  int unit = mode == PLAIN ? 0 : vp_choose("transport", 0, 1);
  bool ignore = (mode == PLAIN || (mode == FIRST && !unit)) && vp_choose("ignore", 0, 1);
  double quant = mode == QUANT ? (unit ? 1 : 2) : 0;
  if (mode >= FIRST) e.ctx->AddPackage(kPkg[mode], kMin[mode], kMax[mode], kPkg[mode]);
  e.ctx->AddTransportUnit("pairs", 2, 2, "first");
  e.ctx->AddTransportUnit("alike", 1, 3, "equal");
  const char* tu = !unit ? "unrestricted" : mode == QUANT ? "alike" : "pairs";
  double thr = vp_double("throughput", 0, 8, G);
  ResBuf<Material> buf;
  double s1 = vp_double("stock", 0, 6, G), s2 = mode == PLAIN ? vp_double("more stock", 0, 4, G) : 0;
  bool keep = mode == FIRST && !unit && !ignore && vp_choose("packaged before", 0, 1);
  if (keep) { buf.keep_packaging(true); vp_assume((s1 >= 1) & (s1 <= 2)); }
  Material::Ptr m1 = Material::Create(f, s1, ca);
  if (keep) m1->ChangePackage("first");
  buf.Push(m1);
  if (mode == PLAIN) buf.Push(Material::Create(f, s2, ca));
  double stock = s1 + s2;
  MatlSellPolicy pol;
  if (mode == PLAIN) pol.Init(f, &buf, "p", thr, ignore);
  else pol.Init(f, &buf, "p", thr, ignore, quant, kPkg[mode], tu);
  pol.Set("one").Set("two");
  double lim = lower(thr, quant > 0 ? quant * (int)(stock / quant) : stock);
  vp_assert(pol.Excl() == (quant > 0) && pol.Limit() == lim, "the limit is the lesser of throughput and stock, in whole quanta");

  CommodMap<Material>::type reqs;
  static const char* kC[] = {"one", "two", "other"};
  std::vector<Request<Material>*> rs;
  std::vector<double> want;
  for (int i = 0; i < 3; ++i) {
    double w = i == 0 ? vp_double("wanted", 0.5, 6, G) : 2.5;
    want.push_back(w);
    rs.push_back(Request<Material>::Create(Material::CreateUntracked(w, cb), f, kC[i]));
    reqs[kC[i]].push_back(rs[i]);
  }
  vp_draws_symbolic(mode == UNIFORM ? 10 : 0);
  std::set<BidPortfolio<Material>::Ptr> ps = pol.GetMatlBids(reqs);
  vp_draws_symbolic(0);
  bool any = (stock >= eps()) & (lim >= eps());
  vp_assert((ps.size() == 1) == any && ps.size() < 2, "there is one portfolio of bids if there is something to sell");
  if (!any) { vp_reach("nothing to sell"); for (int i = 0; i < 3; ++i) delete rs[i]; return; }
  BidPortfolio<Material>::Ptr port = *ps.begin();
  vp_assert(port->constraints().size() == 1 && near(port->constraints().begin()->capacity(), lim, kTol), "all bids together are limited to what can be sold");
  std::vector<Bid<Material>*> bids(port->bids().begin(), port->bids().end());
  vp_assert(port->bids().empty() || port->bidder() == &pol, "the policy bids for its agent");
  std::vector<Trade<Material> > trades;
  double sum = 0;
  for (int i = 0; i < 3; ++i) {
    double q = lower(want[i], lim), tot = 0;
    std::vector<double> got, exp;
    for (size_t k = 0; k < bids.size(); ++k) {
      Bid<Material>* b = bids[k];
      if (b->request() != rs[i]) continue;
      double o = b->offer()->quantity();
      got.push_back(o);
      tot += o;
      vp_assert(b->exclusive() == (quant > 0) && b->bidder() == &pol, "bids in quanta are exclusive");
      vp_assert(b->offer()->comp() == (ignore ? cb : ca), "the composition offered is the requested one if it may be ignored, else that of the stock");
      if (trades.size() < (mode == QUANT ? 5 : 3)) {
        double x = o;
        if (quant <= 0 && i == 0) { x = vp_double("traded", 0.0625, 6, G); vp_assume(x <= o); }
        sum += x;
        trades.push_back(Trade<Material>(rs[i], b, x));
      }
    }
    if (i == 2) { vp_assert(got.empty(), "only the policy's commodities are offered"); break; }
    if (mode == QUANT) exp.assign((int)(q / quant), quant);
    else if (mode != UNIFORM) exp = fills(mode, q);
    if (mode == UNIFORM) {
      bool in = true;
      for (size_t k = 0; k < got.size(); ++k) in &= (got[k] >= kMin[mode] - eps_rsrc()) & (got[k] <= kMax[mode] + kTol);
      vp_assert(in & (tot <= q + kTol), "bids are packages within their limits");
      if (unit) vp_assert(got.size() % 2 == 0, "no more is offered than can be shipped");
    } else {
      if (unit) exp.resize(shippable(mode, exp.size()));
      vp_assert(got.size() == exp.size(), "every request gets as many bids as the stock, quanta, packages and transport allow");
      bool same = true;
      for (size_t k = 0; k < got.size(); ++k) same &= near(got[k], exp[k], kTol);
      vp_assert(same, "every bid is a quantum, a package or all that can be sold");
    }
  }
  vp_assume(sum <= lim);
  std::vector<std::pair<Trade<Material>, Material::Ptr> > resp;
  pol.GetMatlTrades(trades, resp);
  double out = 0;
  int n = 0;
  for (size_t k = 0; k < resp.size(); ++k) {
    Material::Ptr m = resp[k].second;
    double q = m->quantity(), x = resp[k].first.amt;
    out += q;
    vp_assert((q <= x + eps_rsrc()) & ((q >= x - eps_rsrc()) | (q == 0)), "a trade gets what was agreed or nothing");
    if (q > 0) {
      n++;
      vp_assert(m->comp() == (ignore ? cb : ca), "what is handed over has the composition that was offered");
      vp_assert(m->package_name() == kPkg[mode], "what is handed over is packaged");
      vp_assert((q >= kMin[mode] - eps_rsrc()) & (q <= kMax[mode] + eps_rsrc()), "what is handed over is a full package");
    } else if (x >= eps_rsrc()) vp_reach("could not be packaged");
    if (!unit && mode < FIRST) vp_assert(near(q, x, eps_rsrc()), "without packages every trade is met");
  }
  vp_assert(near(out + buf.quantity(), stock, 4 * eps_rsrc()), "what is not handed over stays in the buffer");
  if (unit) vp_assert((size_t)n <= shippable(mode, trades.size()), "no more packages are handed over than can be shipped");
  else vp_assert(resp.size() == trades.size(), "every trade is answered");
  if (n > 1) vp_reach("several trades");
  if (ignore && n) vp_reach("composition ignored");
  for (size_t k = 0; k < bids.size(); ++k) (void)bids[k];
  for (int i = 0; i < 3; ++i) delete rs[i];
}

// quanta, packages and transport units that do not fit together
static void config(Sim& e, HFac* f) {
  static const double kQ[] = {0, 0.5, 1, 1.5, 2, 3, 4};
  double quant = kQ[vp_choose("quantum", 0, 6)];
  int st = vp_choose("strategy", FIRST, UNIFORM), u = vp_choose("transport", 0, 2);
  e.ctx->AddPackage("box", kMin[st], kMax[st], kPkg[st]);
  e.ctx->AddTransportUnit("single", 0, 1, "first");
  e.ctx->AddTransportUnit("pairs", 2, 2, "first");
  static const char* kU[] = {"unrestricted", "single", "pairs"};
  ResBuf<Material> buf;
  MatlSellPolicy pol;
  Out o = attempt([&] { pol.Init(f, &buf, "p", 10, false, quant, "box", kU[u]); });
  bool fits = quant == 0 || (st != UNIFORM && quant >= kMin[st] && quant <= kMax[st] && u != 2);
  vp_assert((o == OK) == fits && (o == OK || o == VALUE), "a quantum has to fill exactly one package that can be shipped");
  vp_reach(fits ? "fits" : "does not fit");
}

void vp_harness() {
  warn_limit = 0;
  CompMap v; v[922350000] = 1;
  Composition::Ptr ca = Composition::CreateFromMass(v);
  v[922380000] = 3;
  Composition::Ptr cb = Composition::CreateFromMass(v);
  Sim e;
  e.init(3);
  HFac* f = new HFac(e.ctx);
  if (vp_choose("what", 0, 1) == 0) config(e, f); else run(e, f, ca, cb);
  delete e.ctx;
}
