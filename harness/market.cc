// C11: one market step, from requests to delivered resources.
#include "common.h"
#include "exchange_manager.h"
#include "greedy_solver.h"
using namespace vph;
#ifdef MAT
typedef Material R;
#define REQS GetMatlRequests
#define BIDS GetMatlBids
#define ADJ AdjustMatlPrefs
#define GIVE GetMatlTrades
#define TAKE AcceptMatlTrades
#else
typedef Product R;
#define REQS GetProductRequests
#define BIDS GetProductBids
#define ADJ AdjustProductPrefs
#define GIVE GetProductTrades
#define TAKE AcceptProductTrades
#endif
static const int G = -10;
static std::vector<std::pair<char, int> > calls;  // what was asked of whom, in order
static Composition::Ptr comp_;
static R::Ptr untracked(double q) {
#ifdef MAT
  return R::CreateUntracked(q, comp_);
#else
  return R::CreateUntracked(q, "stuff");
#endif
}
static R::Ptr tracked(Agent* a, double q) {
#ifdef MAT
  return R::Create(a, q, comp_);
#else
  return R::Create(a, q, "stuff");
#endif
}
typedef std::pair<Trade<R>, R::Ptr> TR;
static std::vector<TR> given, taken;
static std::vector<int> givenfor;
static std::vector<int> giver, taker;

class Adj {
 public:
  Adj() : mode(0) {}
  int mode;  // 0 leave, 1 veto bids of `who`, 2 favour bids of `who`
  Trader* who;
  void adjust(PrefMap<R>::type& p) {
    for (PrefMap<R>::type::iterator i = p.begin(); i != p.end(); ++i)
      for (std::map<Bid<R>*, double>::iterator j = i->second.begin(); j != i->second.end(); ++j) {
        seen.push_back(std::make_pair(i->first->requester() == j->first->request()->requester() ? i->first->requester()->manager()->id() : -1, j->second));
        if (mode && j->first->bidder() == who) j->second = mode == 1 ? -1 : 8;
      }
  }
  std::vector<std::pair<int, double> > seen;  // requester of the bid's request, preference
};
class TFac : public HFac, public Adj {
 public:
  TFac(Context* c) : HFac(c), commod("c"), extra(0), want(0), have(0), excl(false), own(true), give(0), short_by(0) {}
  virtual std::set<RequestPortfolio<R>::Ptr> REQS() {
    calls.push_back(std::make_pair('r', id()));
    std::set<RequestPortfolio<R>::Ptr> s;
    if (want > 0) {
      RequestPortfolio<R>::Ptr p(new RequestPortfolio<R>());
      req = p->AddRequest(untracked(want), this, commod, 2, excl);
      s.insert(p);
      if (extra > 0) {  // and something of another commodity
        RequestPortfolio<R>::Ptr o(new RequestPortfolio<R>());
        o->AddRequest(untracked(extra), this, "e", 2, excl);
        s.insert(o);
      }
    }
    return s;
  }
  virtual std::set<BidPortfolio<R>::Ptr> BIDS(CommodMap<R>::type& m) {
    calls.push_back(std::make_pair('b', id()));
    std::set<BidPortfolio<R>::Ptr> s;
    if (stock) {
      BidPortfolio<R>::Ptr p(new BidPortfolio<R>());
      std::vector<Request<R>*> v = m["c"], w = m["d"], x = m["e"];
      v.insert(v.end(), w.begin(), w.end());
      v.insert(v.end(), x.begin(), x.end());
      nreq = v.size();
      for (size_t i = 0; i < v.size(); ++i) p->AddBid(v[i], untracked(v[i]->target()->quantity()), this);
      p->AddConstraint(CapacityConstraint<R>(stock->quantity()));
      s.insert(p);
    }
    return s;
  }
  virtual void ADJ(PrefMap<R>::type& p) { calls.push_back(std::make_pair('a', id())); adjust(p); }
  virtual void GIVE(const std::vector<Trade<R> >& t, std::vector<std::pair<Trade<R>, R::Ptr> >& out) {
    calls.push_back(std::make_pair('g', id()));
    for (size_t i = 0; i < t.size(); ++i) {
      asked.push_back(t[i].amt);
      askedfor.push_back(t[i].request->requester()->manager()->id());
      own &= t[i].request->commodity() == "e" || t[i].request->commodity() == ((TFac*)t[i].request->requester()->manager())->commod;
      own &= t[i].bid->bidder() == this && t[i].bid->request() == t[i].request;
      double x = t[i].amt;
      if (give == 1) x = x - short_by > 0 ? x - short_by : 0;
      if (give == 2) continue;  // nothing at all
      R::Ptr r = boost::dynamic_pointer_cast<R>(stock->ExtractRes(x));
      out.push_back(std::make_pair(t[i], r));
      given.push_back(out.back());
      giver.push_back(id());
      givenfor.push_back(askedfor.back());
      states.push_back(r->state_id());
    }
  }
  virtual void TAKE(const std::vector<std::pair<Trade<R>, R::Ptr> >& v) {
    calls.push_back(std::make_pair('t', id()));
    for (size_t i = 0; i < v.size(); ++i) { taken.push_back(v[i]); taker.push_back(id()); }
  }
  std::string commod;
  double extra, want, have;
  bool excl, own;
  int give;
  double short_by;
  size_t nreq;
  R::Ptr stock;
  Request<R>* req;
  std::vector<double> asked;
  std::vector<int> askedfor;
  static std::vector<int> states;
};
std::vector<int> TFac::states;
class TInst : public Institution, public Adj {
 public:
  TInst(Context* c) : Institution(c) { Agent::prototype("ti"); Agent::spec("tii"); }
  virtual Agent* Clone() { return new TInst(context()); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void ADJ(PrefMap<R>::type& p) { calls.push_back(std::make_pair('a', id())); adjust(p); }
};
class TReg : public Region, public Adj {
 public:
  TReg(Context* c) : Region(c) { Agent::prototype("tr"); Agent::spec("tri"); }
  virtual Agent* Clone() { return new TReg(context()); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void ADJ(PrefMap<R>::type& p) { calls.push_back(std::make_pair('a', id())); adjust(p); }
};

void vp_harness() {
  warn_limit = 0;
  calls.clear(); given.clear(); givenfor.clear(); taken.clear(); giver.clear(); taker.clear(); TFac::states.clear();
  CompMap v; v[922350000] = 1;
  comp_ = Composition::CreateFromMass(v);
  Sim e;
  e.init();
  e.ctx->solver(new GreedySolver(true));
  TReg* reg = new TReg(e.ctx);
  TInst* inst = new TInst(e.ctx);
  TFac *s1 = new TFac(e.ctx), *r1 = new TFac(e.ctx), *r2 = new TFac(e.ctx), *s2 = new TFac(e.ctx);
  TFac* all[] = {s1, r1, r2, s2};
  reg->Build(NULL);
  inst->Build(reg);
  r1->Build(inst);
  s2->Build(NULL);
  r2->Build(NULL);
  s1->Build(NULL);
  double w1 = vp_double("want1", 0, 32, G), w2 = vp_double("want2", 0, 32, G);
  double h1 = vp_double("have1", 0, 32, G), h2 = vp_double("have2", 0, 32, G);
  vp_assume((w1 > 0) & (h1 > 0) & (h2 > 0));
  bool second = vp_choose("second requester", 0, 1);
  r1->want = w1;
  if (second) { vp_assume(w2 > 0); r2->want = w2; }
  s1->stock = tracked(s1, h1);
  s2->stock = tracked(s2, h2);
  int am = vp_choose("adjust", 0, 6);  // who adjusts, and how
  Adj* who[] = {r1, inst, reg};
  r1->who = inst->who = reg->who = r2->who = s1;
  if (am) who[(am - 1) / 2]->mode = 1 + (am - 1) % 2;
  if (am == 0 && vp_choose("overruled", 0, 1)) { r1->mode = 1; reg->mode = 2; am = 7; }
  if (am % 2) r2->commod = "d";
  if (am == 3 && second) r2->extra = 2;
  size_t xtra = r2->extra > 0;
  int gm = vp_choose("give", 0, 2);
  r1->excl = (vp_sym_tier() || (!second && gm == 0)) && vp_choose("exclusive", 0, 1);
  s1->give = gm;
  if (gm == 1) { s1->short_by = vp_double("short", 0, 32, G); }

  ExchangeManager<R>(e.ctx).Execute();

  // every trader is asked, in order of id, and all requests are in before the first bid
  std::vector<std::pair<char, int> > want, head;
  for (int i = 0; i < 4; ++i) want.push_back(std::make_pair('r', all[i]->id()));
  for (int i = 0; i < 4; ++i) want.push_back(std::make_pair('b', all[i]->id()));
  bool order = calls.size() >= 8;
  for (size_t i = 0; i < 8 && i < calls.size(); ++i) order &= calls[i] == want[i];
  vp_assert(order, "every trader is asked once for requests, then once for bids, in order of agent id");
  vp_assert(s1->nreq == (second ? 2u : 1u) + xtra && s2->nreq == s1->nreq, "bidders see every request");
  // adjustment goes up the requester's family
  std::vector<int> adj, gives, takes;
  for (size_t i = 8; i < calls.size(); ++i) (calls[i].first == 'a' ? adj : calls[i].first == 'g' ? gives : takes).push_back(calls[i].second);
  int n1 = -1, chain = 0;
  for (size_t i = 0; i < adj.size(); ++i) if (adj[i] == r1->id()) n1 = i;
  vp_assert(n1 >= 0 && n1 + 2 < (int)adj.size() && adj[n1 + 1] == inst->id() && adj[n1 + 2] == reg->id() && adj.size() == (second ? 4u : 3u),
            "the requester, then its parents upwards, adjust its preferences, each once");
  vp_assert(r1->seen.size() == 2 && inst->seen.size() == 2 && reg->seen.size() == 2 && (!second || r2->seen.size() == 2 * (1 + xtra)), "adjusters see every bid for the requester's requests");
  bool mine = true, dflt = true;
  for (size_t i = 0; i < r1->seen.size(); ++i) {
    mine &= r1->seen[i].first == r1->id();
    dflt &= r1->seen[i].second == 2;
  }
  vp_assert(mine && dflt, "adjusters start from the request's own preferences");
  bool veto1 = am == 1 || am == 3 || am == 5, fav1 = am == 2 || am == 4 || am == 6 || am == 7;
  // what suppliers were asked for
  TFac* sup[] = {s1, s2};
  double toreq[2] = {0, 0}, from1to1 = 0;
  for (int s = 0; s < 2; ++s) {
    double sum = 0;
    for (size_t i = 0; i < sup[s]->asked.size(); ++i) {
      sum += sup[s]->asked[i];
      toreq[sup[s]->askedfor[i] == r1->id() ? 0 : 1] += sup[s]->asked[i];
      if (s == 0 && sup[s]->askedfor[i] == r1->id()) from1to1 += sup[s]->asked[i];
    }
    vp_assert(sup[s]->own, "a supplier is asked only for its own bids");
    vp_assert(sum <= (s ? h2 : h1), "a supplier is not asked for more than it offers");
  }
  vp_assert((toreq[0] <= w1) & (toreq[1] <= (second ? w2 + r2->extra : 0)), "a requester is not assigned more than it asked for");
  if (veto1) { vp_assert(from1to1 == 0, "a bid with a negative preference is not traded"); vp_reach("vetoed"); }
  if (!second) {
    double best = fav1 || !veto1 ? (fav1 ? h1 : h1) : 0;
    double tot = veto1 ? h2 : h1 + h2;
    if (!r1->excl) {
      vp_assert(toreq[0] == (w1 < tot ? w1 : tot), "demand is met as far as the offers go");
      if (fav1) { vp_assert(from1to1 == (w1 < h1 ? w1 : h1), "the preferred bid is used first"); vp_reach("favoured"); }
    } else {
      bool f1 = (h1 >= w1) & !veto1, f2 = h2 >= w1;
      vp_assert(toreq[0] == ((f1 | f2) ? w1 : 0), "an exclusive request is met by one supplier or not at all");
      if (fav1) vp_assert(from1to1 == (f1 ? w1 : 0), "the preferred bid is used first");
    }
  }
  // everything a supplier hands over reaches its requester, once, and nothing else does
  vp_assert(given.size() == taken.size(), "exactly what was handed over is delivered");
  std::vector<Row> tx;
  e.rec.Flush();
  tx = e.mem.table("Transactions");
  size_t expect = 0, found = 0;
  std::set<int> ids;
  for (size_t i = 0; i < given.size(); ++i) {
    int hits = 0;
    for (size_t k = 0; k < taken.size(); ++k)
      if (taken[k].second == given[i].second) {
        hits++;
        vp_assert(taken[k].first.request == given[i].first.request && taken[k].first.bid == given[i].first.bid && taken[k].first.amt == given[i].first.amt,
                  "a delivery comes with its trade");
        vp_assert(taker[k] == givenfor[i], "a delivery reaches the agent that requested it");
      }
    vp_assert(hits == 1, "exactly what was handed over is delivered");
    int rows = 0;
    for (size_t k = 0; k < tx.size(); ++k)
      if (tx[k].get<int>("ResourceId") == TFac::states[i]) {
        rows++;
        vp_assert(tx[k].get<int>("SenderId") == giver[i] && tx[k].get<int>("ReceiverId") == givenfor[i] &&
                  tx[k].get<std::string>("Commodity") == given[i].first.request->commodity() && tx[k].get<int>("Time") == e.ctx->time(), "a transaction names sender, receiver, commodity and time");
      }
    bool some = given[i].second->quantity() > eps_rsrc();
    if (some) { vp_assert(rows == 1, "a delivery is recorded as one transaction"); vp_reach("recorded"); }
    else { vp_assert(rows == 0, "an empty delivery is not recorded"); vp_reach("empty delivery"); }
    expect += some;
  }
  for (size_t k = 0; k < tx.size(); ++k) ids.insert(tx[k].get<int>("TransactionId"));
  vp_assert(tx.size() == expect, "nothing but deliveries is recorded as a transaction");
  vp_assert(ids.size() == tx.size(), "transaction ids are unique");
  if (second && given.size() > 2) vp_reach("several deliveries");
  delete e.ctx;
}
