// C19: what a buy policy asks for, and when.
#include "common.h"
#include "toolkit/matl_buy_policy.h"
#include "toolkit/total_inv_tracker.h"
using namespace vph;
using toolkit::ResBuf;
using toolkit::MatlBuyPolicy;
using toolkit::TotalInvTracker;
static const int G = -4;
static Composition::Ptr ca, cb;
static double lower(double a, double b) { return a < b ? a : b; }
enum Mode { PLAIN, QUANT, SS, RQ, CUMUL, CYCLE };

class BFac : public HFac {
 public:
  BFac(Context* c) : HFac(c), t0(0), dorm_end(-1), got(0), second(-1) {}
  void start(int m) {
    mode = m;
    t0 = context()->time();
    dorm_end = -1;
    got = 0;
    TotalInvTracker* trk = own ? NULL : &tracker;
    a = 1; d = -1; frac = 1; quant = 0;
    fill_to = req_at = thr = cum = 1e30;
    if (mode != CYCLE && mode != SS) thr = vp_double("throughput", 0, 16, G);
    if (mode == PLAIN) pol.Init(this, &buf, "p", trk, thr);
    if (mode == QUANT) { quant = vp_choose("quantum", 1, 2) == 1 ? 2 : 4; pol.Init(this, &buf, "p", trk, thr, quant); }
    if (mode == SS || mode == RQ) {
      req_at = vp_double("request at", 0, 16, G);
      if (mode == SS) { fill_to = vp_double("fill to", 0.5, 16, G); pol.Init(this, &buf, "p", trk, "sS", fill_to, req_at); }
      else { quant = 4; fill_to = req_at + quant; pol.Init(this, &buf, "p", trk, thr, "RQ", quant, req_at); }
      fill_to = lower(fill_to, cap);
      req_at = lower(req_at, cap);
    }
    if (mode == CUMUL) {
      cum = vp_double("cumulative", 0.5, 16, G);
      d = vp_choose("dormant", 0, vp_sym_tier() ? 2 : 1);
      pol.Init(this, &buf, "p", trk, thr, cum, IntDistribution::Ptr(new FixedIntDist(d)));
      cum = lower(cum, cap);
    }
    if (mode == CYCLE) {
      a = vp_choose("active", 1, 2); d = vp_choose("dormant", -1, 2);
      frac = vp_choose("fraction", 1, 2) * 0.5;
      pol.Init(this, &buf, "p", trk, thr, IntDistribution::Ptr(new FixedIntDist(a)), IntDistribution::Ptr(new FixedIntDist(d)),
               DoubleDistribution::Ptr(new FixedDoubleDist(frac)));
    }
  }
  bool active(int t) {
    if (mode == CUMUL) return !(t < dorm_end);
    if (mode != CYCLE || d < 0) return true;
    return (t - t0) % (a + d) < a;
  }
  virtual void Tick() {
    int t = context()->time();
    if (t == 1 && second >= 0) { pol.ResetBehavior(); start(second); vp_reach("changed behaviour"); }
    double q = buf.quantity(), o = other.quantity();
    double room = own ? cap - q : lower(lower(cap + ocap, lim) - (q + o), cap - q);
    double amt = lower(lower(thr, fill_to - q), room) * frac;
    double inv = own ? q : q + o;
    amt = lower(amt, cum - got);
    bool ask = active(t) & (inv <= req_at) & (amt >= eps());
    int n = quant > 0 ? (int)(amt / quant) : 1;
    if (!ask) n = 0;
    std::set<RequestPortfolio<Material>::Ptr> ps = pol.GetMatlRequests();
    if (!active(t)) { vp_assert(ps.empty(), "nothing is asked for in a dormant period"); vp_reach("dormant"); }
    vp_assert((int)ps.size() == n, "the policy asks for as much as its limits allow, in whole quanta if it has one");
    std::vector<std::pair<Trade<Material>, Material::Ptr> > resp;
    std::vector<Bid<Material>*> bids;
    int give = n && mode == CYCLE ? t % 2 : n ? vp_choose("deliver", 0, mode == CUMUL || (quant > 0 && n > 1) ? 2 : 1) : 0;
    double sum = 0;
    int k = 0;
    std::set<RequestPortfolio<Material>::Ptr>::iterator it;
    for (it = ps.begin(); it != ps.end(); ++it, ++k) {
      const std::vector<Request<Material>*>& rs = (*it)->requests();
      vp_assert(rs.size() == 2 && rs[0]->commodity() == "one" && rs[1]->commodity() == "two" && rs[0]->preference() == 1 && rs[1]->preference() == 3 &&
                rs[0]->target()->comp() == ca && rs[1]->target()->comp() == cb, "each portfolio asks for every commodity with its composition and preference");
      for (size_t i = 0; i < rs.size(); ++i) {
        vp_assert(rs[i]->target()->quantity() == (quant > 0 ? quant : amt), "a request is for one quantum, or for all there is room for");
        vp_assert(rs[i]->exclusive() == (quant > 0) && rs[i]->requester() == &pol, "requests in quanta are exclusive");
      }
      sums.push_back(std::make_pair((*it)->qty(), quant > 0 ? quant : amt));  // nonlinear, so looked at last
      if (give == 0 || (give == 1 && k)) continue;
      double x = quant > 0 ? quant : amt;
      if (mode == CUMUL && give == 2) { x = amt - 0x1p-21; }  // all but a negligible rest
      else if (quant <= 0 && mode != CYCLE) { x = vp_double("delivered", 0, 16, G); vp_assume(x <= amt); }
      Request<Material>* r = rs[k % 2];
      Material::Ptr m = Material::Create(this, x, k % 2 ? cb : ca);
      Bid<Material>* b = Bid<Material>::Create(r, m, this);
      bids.push_back(b);
      resp.push_back(std::make_pair(Trade<Material>(r, b, x), m));
      sum += x;
    }
    pol.AcceptMatlTrades(resp);
    vp_assert(near(buf.quantity(), q + sum, 1e-9), "everything delivered is put in the buffer");
    vp_assert(pol.rsrc_commods().size() == resp.size(), "the commodity of every delivery is known");
    for (size_t i = 0; i < resp.size(); ++i) {
      vp_assert(pol.rsrc_commods().at(resp[i].second) == resp[i].first.request->commodity(), "the commodity of every delivery is known");
      delete bids[i];
    }
    if (sum > 0) vp_reach("delivered");
    if (mode == CUMUL) {
      got += sum;
      if (cum - got < eps_rsrc()) { dorm_end = t + 1 + d; got = 0; vp_reach("cumulative limit reached"); }
    }
    // the facility uses some of it up
    if (t == 0 && use) buf.PopN(buf.count());
  }
  ResBuf<Material> buf, other;
  TotalInvTracker tracker;
  MatlBuyPolicy pol;
  std::vector<std::pair<double, double> > sums;
  int mode, t0, a, d, dorm_end, second;
  bool own, use;
  double cap, ocap, lim, thr, fill_to, req_at, cum, quant, frac, got;
};

void vp_harness() {
  warn_limit = 0;
  CompMap v; v[922350000] = 1;
  ca = Composition::CreateFromMass(v);
  v[922380000] = 3;
  cb = Composition::CreateFromMass(v);
  Sim e;
  int mode = vp_choose("mode", PLAIN, CYCLE);
  e.init(mode == CYCLE ? 5 : mode == CUMUL ? (vp_sym_tier() ? 4 : 3) : 2);
  BFac* f = new BFac(e.ctx);
  f->Build(NULL);
  f->own = mode != CYCLE && ((mode == CUMUL && !vp_sym_tier()) || vp_choose("no tracker", 0, 1));
  f->use = mode != CYCLE && vp_choose("use", 0, 1);
  f->cap = mode == CYCLE ? 64 : vp_double("capacity", 0.5, 16, G);
  f->ocap = 16;
  f->lim = mode == CYCLE ? 32 : vp_double("limit", 0.5, 32, G);
  double q = mode == CYCLE ? 1 : vp_double("stock", 0, 16, G), o = mode == CYCLE || f->own ? 0 : vp_double("other stock", 0, 16, G);
  vp_assume(q <= f->cap);
  f->buf.capacity(f->cap);
  f->other.capacity(f->ocap);
  f->buf.Push(Material::Create(f, q, ca));
  f->other.Push(Material::Create(f, o, ca));
  std::vector<ResBuf<Material>*> bufs;
  bufs.push_back(&f->buf);
  bufs.push_back(&f->other);
  if (!f->own) { f->tracker.Init(bufs, f->lim); vp_assume(q + o <= f->lim); }
  f->pol.Set("one", cb, 7).Set("gone").Set("two", cb, 3).Set("one", ca).Unset("gone");
  if (mode == CYCLE) f->second = vp_choose("then", 0, 1) ? -1 : (int)CYCLE;
  f->start(mode);
  e.ti.RunSim();
  for (size_t i = 0; i < f->sums.size(); ++i) vp_assert(near(f->sums[i].first, f->sums[i].second, 1e-9), "a portfolio asks for its commodities in place of each other");
  delete e.ctx;
}
