// C10: an exchange is translated to a graph, and its solution back, faithfully.
#include "common.h"
#include "bid_portfolio.h"
#include "exchange_context.h"
#include "exchange_translator.h"
#include "request_portfolio.h"
using namespace vph;
typedef Product R;
static const int G = -8;
// counts k units per unit of what is offered, and something else for what is asked for
struct Conv : public Converter<R> {
  double k;
  Conv(double k) : k(k) {}
  virtual double convert(R::Ptr r, Arc const*, ExchangeTranslationContext<R> const*) const { return r->quantity() * (r->quality() == "p" ? k : 9 * k); }
};
static R::Ptr prod(double q) { return R::CreateUntracked(q, "p"); }
static R::Ptr target(double q) { return R::CreateUntracked(q, "t"); }

void vp_harness() {
  warn_limit = 0;
  Sim e;
  e.init();
  HFac *r1 = new HFac(e.ctx), *r2 = new HFac(e.ctx), *b1 = new HFac(e.ctx), *b2 = new HFac(e.ctx);
  ExchangeContext<R> ex;
  bool mutual = vp_choose("mutual", 0, 1), two = vp_choose("two requests", 0, 1) || mutual;
  bool rx = vp_choose("request exclusive", 0, 1), bx = vp_choose("bid exclusive", 0, 1);
  int nrc = vp_choose("request constraints", 0, 1), nbc = vp_choose("bid constraints", 0, 2);
  // requests
  double q0 = vp_double("q0", 0, 64, G), q1 = 0, q2 = vp_double("q2", 0, 64, G);
  vp_assume((q0 > 0) & (q2 > 0));
  RequestPortfolio<R>::Ptr rp(new RequestPortfolio<R>()), rp2(new RequestPortfolio<R>());
  std::vector<Request<R>*> mut;
  Request<R>* ra = rp->AddRequest(target(q0), r1, "ca", 1.5, rx);
  Request<R>* rb = NULL;
  if (two) {
    q1 = mutual ? 2 * q0 : vp_double("q1", 0, 64, G);
    vp_assume(q1 > 0);
    rb = rp->AddRequest(target(q1), r1, "cb", 2.5, false);
  }
  double q3 = mutual ? 5 : 0;  // one more, that no other stands in for
  if (mutual) rp->AddRequest(target(q3), r1, "cd", 1, false);
  vp_assert(rp->qty() == q0 + q1 + q3, "a portfolio asks for the sum of its requests");
  double total = q0 + q1, coefa = 1, coefb = 1;
  if (mutual) {
    mut.push_back(ra);
    mut.push_back(rb);
    rp->AddMutualReqs(mut);
    total = (q0 + q1) / 2 + q3;
    coefa = 1.5;
    coefb = 0.75;
    vp_assert(rp->qty() == total, "requests that stand in for each other count once, with their average");
  }
  vp_assert(attempt([&] { rp->AddRequest(prod(1), r2, "ca", 1, false); }) == KEY, "a portfolio has one requester");
  vp_assert(rp->qty() == total && rp->requests().size() == (mutual ? 3u : two ? 2u : 1u), "a refused request is not part of the portfolio");
  double rcap = 0;
  if (nrc) {
    rcap = vp_double("rcap", 0, 64, G);
    Out o = attempt([&] { rp->AddConstraint(CapacityConstraint<R>(rcap, Converter<R>::Ptr(new Conv(4)))); });
    vp_assert((o == OK) == (rcap > 0), "a constraint needs a positive capacity");
    if (o != OK) return;
  }
  Request<R>* rc = rp2->AddRequest(target(q2), r2, "ca", 3.5, false);
  ex.AddRequestPortfolio(rp);
  ex.AddRequestPortfolio(rp2);
  vp_assert(ex.requesters.size() == 2 && ex.commod_requests["ca"].size() == 2, "requests are grouped by commodity");
  // bids: b1 answers everything, b2 only the first request
  double o0 = vp_double("offer0", 0, 64, G), o1 = vp_double("offer1", 0, 64, G), o2 = vp_double("offer2", 0, 64, G);
  int pa = vp_choose("pref of offer2", 0, 3);  // default, own, negative, zero
  static const double kP[] = {1.5, 0.25, -1, 0};
  BidPortfolio<R>::Ptr bp(new BidPortfolio<R>()), bp2(new BidPortfolio<R>());
  R::Ptr ob0 = prod(o0);
  Bid<R>*bid0 = NULL, *bid1 = NULL, *bid2 = NULL;
  Out o = attempt([&] { bid0 = bp->AddBid(ra, ob0, b1, bx); });
  vp_assert((o == OK) == (o0 > 0), "a bid needs a positive quantity");
  vp_assert(bp->bids().size() == (o == OK ? 1u : 0u), "a refused bid is not part of the portfolio");
  vp_assume((o0 > 0) & (o1 > 0) & (o2 > 0));
  // the same object offered to two requests
  bool shared = bx && vp_choose("shared offer", 0, 1);
  R::Ptr ob1 = shared ? ob0 : prod(o1);
  if (shared) o1 = o0;
  bid1 = bp->AddBid(rc, ob1, b1, bx);
  vp_assert(attempt([&] { bp->AddBid(ra, prod(1), b2); }) == KEY, "a portfolio has one bidder");
  vp_assert(bp->bids().size() == 2, "a refused bid is not part of the portfolio");
  bid2 = pa == 0 ? bp2->AddBid(ra, prod(o2), b2) : bp2->AddBid(ra, prod(o2), b2, false, kP[pa]);
  Bid<R>* bid3 = two ? bp2->AddBid(rb, prod(o1), b2) : NULL;
  double cap[2] = {0, 0};
  static const double kK[] = {0.5, 2};
  for (int i = 0; i < nbc; ++i) {
    cap[i] = vp_double("bcap", 0, 64, G);
    vp_assume(cap[i] > 0);
    bp->AddConstraint(CapacityConstraint<R>(cap[i], Converter<R>::Ptr(new Conv(kK[i]))));
  }
  ex.AddBidPortfolio(bp);
  ex.AddBidPortfolio(bp2);
  vp_assert(ex.bids_by_request[ra].size() == 2 && ex.bids_by_request[rc].size() == 1 && ex.bidders.size() == 2, "bids are grouped by request");
  vp_assert(ex.trader_prefs[r1][ra][bid0] == 1.5 && ex.trader_prefs[r2][rc][bid1] == 3.5 && ex.trader_prefs[r1][ra][bid2] == kP[pa],
            "a bid's preference is its own, or else the request's");
  bool adj = vp_choose("adjusted", 0, 1);
  if (adj) ex.trader_prefs[r1][ra][bid0] = 7;  // as preference adjustment does
  ExchangeTranslator<R> xl(&ex);
  ExchangeGraph::Ptr g;
  o = attempt([&] { g = xl.Translate(); });
  vp_assert((o == OK) == (pa != 3), "a zero preference, and nothing else, is refused");
  if (o != OK) { vp_reach("refused"); return; }
  // nodes
  ExchangeTranslationContext<R>& tc = xl.translation_ctx();
  vp_assert(g->request_groups().size() == 2 && g->supply_groups().size() == 2, "one group per portfolio");
  RequestGroup::Ptr g0 = g->request_groups()[0], g1 = g->request_groups()[1];
  ExchangeNodeGroup::Ptr s0 = g->supply_groups()[0], s1 = g->supply_groups()[1];
  vp_assert(g0->nodes().size() == (mutual ? 3u : two ? 2u : 1u) && g1->nodes().size() == 1 && s0->nodes().size() == 2 && s1->nodes().size() == (two ? 2u : 1u), "one node per request and bid");
  vp_assert(g0->qty() == total && g1->qty() == q2, "a request group asks for its portfolio's quantity");
  struct { ExchangeNode::Ptr n; double q; bool x; const char* c; Agent* a; ExchangeNodeGroup* g; } want[] = {
      {tc.request_to_node[ra], q0, rx, "ca", r1, g0.get()}, {tc.request_to_node[rc], q2, false, "ca", r2, g1.get()},
      {tc.bid_to_node[bid0], o0, bx, "ca", b1, s0.get()}, {tc.bid_to_node[bid1], o1, bx, "ca", b1, s0.get()}, {tc.bid_to_node[bid2], o2, false, "ca", b2, s1.get()},
      {two ? tc.request_to_node[rb] : tc.request_to_node[ra], two ? q1 : q0, two ? false : rx, two ? "cb" : "ca", r1, g0.get()}};
  for (int i = 0; i < 6; ++i) {
    vp_assert(want[i].n && want[i].n->exclusive == want[i].x && want[i].n->commod == want[i].c && want[i].n->agent_id == want[i].a->id() && want[i].n->group == want[i].g,
              "a node carries its request's or bid's exclusivity, commodity, agent and group");
    vp_assert(want[i].n->qty == want[i].q, "a node carries its request's or bid's quantity");
  }
  // capacities
  vp_assert((int)g0->capacities().size() == nrc + 1 && (int)g1->capacities().size() == 1 && (int)s0->capacities().size() == nbc && s1->capacities().empty(), "one capacity per constraint, and one for the requested total");
  if (nrc) vp_assert(g0->capacities()[0] == rcap, "capacities are those of the constraints");
  vp_assert((g0->capacities()[nrc] == total) & (g1->capacities()[0] == q2), "a request group's last capacity is its requested total");
  for (int i = 0; i < nbc; ++i) vp_assert(s0->capacities()[i] == cap[i], "capacities are those of the constraints");
  // arcs
  size_t narcs = (pa == 2 ? 2 : 3) + (two ? 1 : 0);
  vp_assert(g->arcs().size() == narcs, "one arc per bid that is not ruled out by a negative preference");
  if (pa == 2) vp_reach("negative preference");
  for (size_t i = 0; i < g->arcs().size(); ++i) {
    const Arc& a = g->arcs()[i];
    Bid<R>* b = tc.node_to_bid[a.vnode()];
    Request<R>* r = tc.node_to_request[a.unode()];
    vp_assert(b && r && b->request() == r, "an arc links a bid to its request");
    double p = b == bid0 ? (adj ? 7 : 1.5) : b == bid1 ? 3.5 : b == bid3 ? 2.5 : kP[pa];
    vp_assert(a.pref() == p && a.unode()->prefs[a] == p, "an arc carries the adjusted preference");
    bool x = (r == ra && rx) || (b != bid2 && b != bid3 && bx);
    vp_assert(a.exclusive() == x, "an arc is exclusive if its request or bid is");
    double rq = r == ra ? q0 : r == rc ? q2 : q1, bq = b == bid0 ? o0 : b == bid2 ? o2 : o1;
    bool rxx = r == ra && rx, bxx = b != bid2 && b != bid3 && bx;
    if (x) {
      double w = rxx && bxx ? (rq == bq ? rq : 0) : rxx ? (rq <= bq ? rq : 0) : (bq <= rq ? bq : 0);
      vp_assert(a.excl_val() == w, "an exclusive arc can carry the whole quantity or nothing");
    }
    const std::vector<double>& uu = a.unode()->unit_capacities[a];
    const std::vector<double>& vu = a.vnode()->unit_capacities[a];
    vp_assert((int)uu.size() == (r != rc ? nrc + 1 : 1) && (int)vu.size() == (b == bid2 || b == bid3 ? 0 : nbc), "one unit capacity per constraint of either side");
    if (r != rc && nrc) vp_assert(near(uu[0], 4, 1e-9), "a unit capacity is the constraint's measure per unit of the offer");
    vp_assert(near(uu.back(), r == ra ? coefa : r == rb ? coefb : 1, 1e-9), "a full order of any request standing in for others meets the demand");
    for (size_t k = 0; k < vu.size(); ++k) vp_assert(near(vu[k], kK[k], 1e-9), "a unit capacity is the constraint's measure per unit of the offer");
  }
  if (bx) {
    vp_assert(s0->excl_node_groups().size() == (shared ? 1u : 2u) && s1->excl_node_groups().empty(), "exclusive bids of one object exclude each other");
    if (shared) vp_assert(s0->excl_node_groups()[0].size() == 2, "exclusive bids of one object exclude each other");
  } else vp_assert(s0->excl_node_groups().empty(), "only exclusive bids exclude each other");
  vp_assert(g0->excl_node_groups().size() == (rx ? 1u : 0u), "each exclusive request allows one match");
  // and back
  double amt = vp_double("match", 0, 64, G);
  for (size_t i = 0; i < g->arcs().size(); ++i) g->AddMatch(g->arcs()[i], amt);
  std::vector<Trade<R> > tr;
  xl.BackTranslateSolution(g->matches(), tr);
  vp_assert(tr.size() == narcs, "one trade per match");
  for (size_t i = 0; i < tr.size(); ++i)
    vp_assert((tr[i].bid == tc.node_to_bid[g->arcs()[i].vnode()]) & (tr[i].request == tc.node_to_request[g->arcs()[i].unode()]) & (tr[i].amt == amt), "a trade has the match's request, bid and amount");
  vp_reach("translated");
  if (mutual) vp_reach("mutual");
}
