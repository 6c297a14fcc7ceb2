// C08: the order in which requests are served, whatever their preferences.
#include "common.h"
#include "exchange_graph.h"
#include "greedy_preconditioner.h"
using namespace vph;
void vp_harness() {
  // three requests, the first two of one requester or the last two
  int layout = vp_choose("layout", 0, 2), kind = vp_choose("weights", 0, 4);
  int free1 = vp_choose("free", 0, 4);
  int grp[3] = {0, layout == 1, layout != 2};
  int com[3] = {0, 1, vp_choose("commodity", 0, 1)};
  static const int kArcs[3] = {2, 1, 1};
  static const double kP[4] = {1, 2, 1.5, 0.75};
  std::map<std::string, double> w;
  if (kind) { w["c0"] = kind == 2 ? 2 : 1; w["c1"] = kind == 3 ? 1.25 : kind == 4 ? 2 : 1; }
  GreedyPreconditioner* pc = kind == 0 ? new GreedyPreconditioner() : kind == 4 ? new GreedyPreconditioner(w, GreedyPreconditioner::REVERSE) : new GreedyPreconditioner(w);
  double wt[3], avg[3];
  for (int i = 0; i < 3; ++i) wt[i] = kind == 0 ? 1 : kind == 4 ? 3 - w[com[i] ? "c1" : "c0"] : w[com[i] ? "c1" : "c0"];
  ExchangeGraph g;
  RequestGroup::Ptr rg[2];
  ExchangeNode::Ptr r[3];
  for (int k = 0; k < 2; ++k) rg[k] = RequestGroup::Ptr(new RequestGroup(10));
  ExchangeNodeGroup::Ptr bg(new ExchangeNodeGroup());
  int a = 0;
  for (int i = 0; i < 3; ++i) {
    r[i] = ExchangeNode::Ptr(new ExchangeNode(10, false, com[i] ? "c1" : "c0", i));
    rg[grp[i]]->AddExchangeNode(r[i]);
    avg[i] = 0;
    for (int k = 0; k < kArcs[i]; ++k, ++a) {
      ExchangeNode::Ptr b(new ExchangeNode(10, false, "c", 5 + a));
      bg->AddExchangeNode(b);
      Arc arc(r[i], b);
      double p = kP[a];
      if (a == free1 || a == free1 - 1) {
        p = vp_double("preference", 0, 8, -4);
        vp_assume(p > 0);
      }
      arc.pref(p);
      r[i]->prefs[arc] = p;
      g.AddArc(arc);
      avg[i] += p / kArcs[i];
    }
  }
  g.AddSupplyGroup(bg);
  g.AddRequestGroup(rg[0]);
  g.AddRequestGroup(rg[1]);
  pc->Condition(&g);
  delete pc;
  // compared without dividing
  std::vector<RequestGroup::Ptr> gs = g.request_groups();
  double u[3], d[3];
  for (int i = 0; i < 3; ++i) { u[i] = wt[i] * (1 + 2 * avg[i]); d[i] = 1 + avg[i]; }
  const double tol = 1e-6;
  vp_assert(gs.size() == 2 && gs[0] != gs[1] && gs[0]->nodes().size() + gs[1]->nodes().size() == 3, "ordering keeps the requests");
  for (int k = 0; k < 2; ++k) {
    const std::vector<ExchangeNode::Ptr>& ns = rg[k]->nodes();
    int seen = 0;
    for (size_t n = 0; n < ns.size(); ++n) { vp_assert(grp[ns[n]->agent_id] == k && !(seen >> ns[n]->agent_id & 1), "ordering keeps the requests"); seen |= 1 << ns[n]->agent_id; }
    for (size_t n = 0; n + 1 < ns.size(); ++n) {
      int i = ns[n]->agent_id, j = ns[n + 1]->agent_id;
      vp_assert(u[i] * d[j] >= u[j] * d[i] - tol, "requests of a group are in descending order of weight");
      vp_reach(i < j ? "as given" : "exchanged");
    }
  }
  int two = layout == 1;  // the group of two requests
  if (layout == 2) { vp_reach("one group"); return; }
  int x = -1, y = -1, z = -1;
  for (int i = 0; i < 3; ++i) if (grp[i] == two) { if (x < 0) x = i; else y = i; } else z = i;
  double lhs = u[x] * d[y] * d[z] + u[y] * d[x] * d[z], rhs = 2 * u[z] * d[x] * d[y];
  bool first = gs[0] == rg[two];
  vp_assert(first ? lhs >= rhs - tol : rhs >= lhs - tol, "groups are in descending order of their average weight");
  vp_reach(first ? "two first" : "two last");
}
