// C07/C08: the greedy solver on small exchange graphs.
//   (default)  every solution respects all limits of the graph
//   -DORDER    the solution is the one preference order prescribes
#include "common.h"
#include "exchange_graph.h"
#include "greedy_preconditioner.h"
#include "greedy_solver.h"
using namespace vph;
static const int G = -10;
static const double kTiny = 1.0 / (1 << 21);  // below the solver's tolerance
static const double kInf = std::numeric_limits<double>::max();

struct Shape { int nr, nb; int rg[2], bg[2]; int na; int arc[4][2]; };
static const Shape kShape[] = {
    {1, 2, {0, 0}, {0, 0}, 2, {{0, 0}, {0, 1}}},                  // one request, one bidder with two bids
    {2, 2, {0, 0}, {0, 0}, 2, {{0, 0}, {1, 1}}},                  // a portfolio of two requests, one bidder
    {2, 2, {0, 1}, {0, 0}, 2, {{0, 0}, {1, 1}}},                  // two requesters, one bidder
    {2, 2, {0, 1}, {0, 1}, 4, {{0, 0}, {0, 1}, {1, 0}, {1, 1}}},  // two requesters, two bidders, everyone with everyone
    {2, 2, {0, 0}, {0, 1}, 4, {{0, 0}, {0, 1}, {1, 0}, {1, 1}}},  // one portfolio, two bidders
};
struct Model {
  Shape s;
  int nrg, nbg;
  ExchangeNode::Ptr r[2], b[2];
  RequestGroup::Ptr rg[2];
  ExchangeNodeGroup::Ptr bg[2];
  double rq[2], bq[2], target[2], pref[4];
  bool rx[2], bx[2];
  int ncap[2];
  double cap[2][2], unit[4][2];  // bid group limits and unit demands of the arcs
  double flow[4];
  int matched[4];
  std::string commod[2];
  bool shared;  // both bids offer the same exclusive object
  ExchangeGraph g;
};

static void build(Model& m, int shape, int xpat, int ppat, int upat, bool inf) {
  m.s = kShape[shape];
  m.shared = xpat >= 6;
  m.nrg = m.nbg = 1;
  for (int i = 0; i < m.s.nr; ++i) if (m.s.rg[i] == 1) m.nrg = 2;
  for (int i = 0; i < m.s.nb; ++i) if (m.s.bg[i] == 1) m.nbg = 2;
  static const int kId[2][2] = {{7, 3}, {4, 9}};
  for (int i = 0; i < m.s.nr; ++i) {
    m.rq[i] = vp_double("request", 0, 64, G);
    m.rx[i] = xpat == 1 || (xpat == 2 && i == 0) || xpat == 5 || xpat == 7;
    m.commod[i] = i ? "c1" : "c0";
    m.r[i] = ExchangeNode::Ptr(new ExchangeNode(m.rq[i], m.rx[i], m.commod[i], kId[0][i]));
  }
  for (int i = 0; i < m.s.nb; ++i) {
    m.bq[i] = vp_double("bid", 0, 64, G);
    m.bx[i] = xpat == 3 || (xpat == 4 && i == 0) || xpat == 5 || m.shared;
    if (m.shared && i) m.bq[i] = m.bq[0];
    m.b[i] = ExchangeNode::Ptr(new ExchangeNode(m.bq[i], m.bx[i], "c", kId[1][i]));
  }
  for (int k = 0; k < m.nrg; ++k) {
    double t = 0;
    int n = 0;
    for (int i = 0; i < m.s.nr; ++i) if (m.s.rg[i] == k) { t += m.rq[i]; ++n; }
    // requests that stand in for each other share a lower total
    if (n > 1) t = vp_double("target", 0, 64, G);
    m.target[k] = t;
    m.rg[k] = RequestGroup::Ptr(new RequestGroup(t));
    for (int i = 0; i < m.s.nr; ++i) if (m.s.rg[i] == k) m.rg[k]->AddExchangeNode(m.r[i]);
    m.rg[k]->AddCapacity(t);
    m.g.AddRequestGroup(m.rg[k]);
  }
  static const double kUnit[][4][2] = {
      {{1, 1}, {1, 1}, {1, 1}, {1, 1}}, {{0.5, 2}, {2, 0.5}, {1, 2}, {2, 1}}, {{0, 1}, {1, 0}, {2, 0}, {0, 0.5}}, {}, {{kTiny, 1}, {kTiny, 1}, {kTiny, 1}, {kTiny, 1}}};
  for (int k = 0; k < m.nbg; ++k) {
    m.bg[k] = ExchangeNodeGroup::Ptr(new ExchangeNodeGroup());
    for (int i = 0; i < m.s.nb; ++i) if (m.s.bg[i] == k) m.bg[k]->AddExchangeNode(m.b[i]);
    std::vector<std::vector<ExchangeNode::Ptr> > xg;
    for (int i = 0; i < m.s.nb; ++i) if (m.s.bg[i] == k && m.bx[i]) {
      if (!m.shared || xg.empty()) xg.resize(xg.size() + 1);
      xg.back().push_back(m.b[i]);
    }
    for (size_t i = 0; i < xg.size(); ++i) m.bg[k]->AddExclGroup(xg[i]);
    m.ncap[k] = upat == 0 ? 1 : upat == 3 ? 0 : 2;
    for (int c = 0; c < m.ncap[k]; ++c) {
      m.cap[k][c] = inf && c == 0 ? kInf : vp_double("capacity", 0, 64, G);
      if (upat == 4 && c == 0 && !inf) m.cap[k][c] *= kTiny;
      m.bg[k]->AddCapacity(m.cap[k][c]);
    }
    m.g.AddSupplyGroup(m.bg[k]);
  }
  for (int a = 0; a < m.s.na; ++a) {
    int i = m.s.arc[a][0], j = m.s.arc[a][1];
    Arc arc(m.r[i], m.b[j]);
    m.pref[a] = ppat >> a & 1 ? 2 : 1;
    arc.pref(m.pref[a]);
    m.r[i]->prefs[arc] = m.pref[a];
    m.r[i]->unit_capacities[arc].push_back(1);
    for (int c = 0; c < 2; ++c) m.unit[a][c] = upat == 3 ? 0 : kUnit[upat][a][c];
    for (int c = 0; c < m.ncap[m.s.bg[j]]; ++c) m.b[j]->unit_capacities[arc].push_back(m.unit[a][c]);
    m.b[j]->unit_capacities[arc];
    m.g.AddArc(arc);
    m.flow[a] = 0;
    m.matched[a] = 0;
  }
}

// what arc a can still carry on top of flow f
static double room(const Model& m, const double* f, int a) {
  int i = m.s.arc[a][0], j = m.s.arc[a][1];
  double rr = m.rq[i], br = m.bq[j], tr = m.target[m.s.rg[i]];
  for (int k = 0; k < m.s.na; ++k) {
    if (m.s.arc[k][0] == i) rr -= f[k];
    if (m.s.arc[k][1] == j) br -= f[k];
    if (m.s.rg[m.s.arc[k][0]] == m.s.rg[i]) tr -= f[k];
  }
  double x = rr < br ? rr : br;
  x = x < tr ? x : tr;
  int h = m.s.bg[j];
  for (int c = 0; c < m.ncap[h]; ++c) {
    if (m.unit[a][c] == 0 || m.cap[h][c] == kInf) continue;
    double left = m.cap[h][c];
    for (int k = 0; k < m.s.na; ++k) if (m.s.bg[m.s.arc[k][1]] == h) left -= f[k] * m.unit[k][c];
    left /= m.unit[a][c];
    x = x < left ? x : left;
  }
  return x;
}
// the only amount an exclusive arc may carry (0: none)
static double whole(const Model& m, int a) {
  int i = m.s.arc[a][0], j = m.s.arc[a][1];
  if (m.rx[i] && m.bx[j]) return m.rq[i] == m.bq[j] ? m.rq[i] : 0;
  if (m.rx[i]) return m.rq[i] <= m.bq[j] ? m.rq[i] : 0;
  return m.bq[j] <= m.rq[i] ? m.bq[j] : 0;
}
static bool excl(const Model& m, int a) { return m.rx[m.s.arc[a][0]] || m.bx[m.s.arc[a][1]]; }

void vp_harness() {
  Model m;
  int t = vp_sym_tier();
  int shape = vp_choose("shape", 0, 4);
  int narc = kShape[shape].na;
#ifdef ORDER
  int xpat = vp_choose("exclusive", 0, t ? (kShape[shape].bg[1] ? 5 : 7) : narc == 4 ? 1 : 7);
  int ppat = narc == 4 && !t ? vp_choose("prefs", 0, 3) * 5 : vp_choose("prefs", 0, (1 << narc) - 1);
  int upat = t ? vp_choose("units", 0, 3) : 0;
  bool inf = false;
  int wpat = vp_choose("weights", 0, kShape[shape].rg[1] == 1 ? 3 : 0);
#else
  int xpat = vp_choose("exclusive", 0, t ? (kShape[shape].bg[1] ? 5 : 7) : narc == 4 ? 1 : 7);
  int ppat = narc == 4 && !t ? 4 : !t ? vp_choose("prefs", 1, 2) : vp_choose("prefs", 0, (1 << narc) - 1);
  int upat = narc == 4 && !t ? 0 : vp_choose("units", 0, 4);
  bool inf = narc == 4 || upat == 4 || (!t && upat > 1) ? 0 : vp_choose("unlimited", 0, 1);
  int wpat = 0;
#endif
  build(m, shape, xpat, ppat, upat, inf);
  std::map<std::string, double> w;
  if (wpat) { w["c0"] = wpat == 1 ? 1 : 3; w["c1"] = wpat == 1 ? 3 : 1; }
  GreedyPreconditioner* pc = wpat == 3 ? new GreedyPreconditioner(w, GreedyPreconditioner::REVERSE) : new GreedyPreconditioner(w);
  GreedySolver solver(true, pc);
#ifdef ORDER
  {
    // a solver is used for one exchange after the other: an earlier one with demand left over
    ExchangeGraph e;
    ExchangeNode::Ptr u(new ExchangeNode(5, false, "c0", 1)), v(new ExchangeNode(2, false, "c", 2));
    RequestGroup::Ptr ug(new RequestGroup(5));
    ExchangeNodeGroup::Ptr vg(new ExchangeNodeGroup());
    ug->AddExchangeNode(u); vg->AddExchangeNode(v);
    ug->AddCapacity(5); vg->AddCapacity(2);
    e.AddRequestGroup(ug); e.AddSupplyGroup(vg);
    Arc arc(u, v);
    arc.pref(0.5);
    u->prefs[arc] = 0.5;
    u->unit_capacities[arc].push_back(1); v->unit_capacities[arc].push_back(1);
    e.AddArc(arc);
    solver.Solve(&e);
    vp_assert(e.matches().size() == 1 && e.matches()[0].second == 2, "a bid supplies all it can");
  }
#endif
  double obj = 0;
  Out o = attempt([&] { obj = solver.Solve(&m.g); });
  vp_assert(o == OK, "the solver finds a solution of every graph");
  if (o != OK) return;
  const std::vector<Match>& ms = m.g.matches();
  bool known = true;
  for (size_t k = 0; k < ms.size(); ++k) {
    int at = -1;
    for (int a = 0; a < m.s.na; ++a)
      if (ms[k].first.unode() == m.r[m.s.arc[a][0]] && ms[k].first.vnode() == m.b[m.s.arc[a][1]]) at = a;
    known &= at >= 0;
    if (at >= 0) { m.flow[at] = ms[k].second; m.matched[at]++; }
    vp_assert(ms[k].second > 0, "every match carries a positive quantity");
  }
  vp_assert(known, "matches are made along arcs of the graph");
  for (int a = 0; a < m.s.na; ++a) vp_assert(m.matched[a] <= 1, "an arc is matched at most once");
  if (!ms.empty()) vp_reach("matched");
  if (ms.size() > 1) vp_reach("several matches");
#ifndef ORDER
  for (int i = 0; i < m.s.nr; ++i) {
    double s = 0; int n = 0;
    for (int a = 0; a < m.s.na; ++a) if (m.s.arc[a][0] == i) { s += m.flow[a]; n += m.matched[a]; }
    vp_assert(s <= m.rq[i], "a request never receives more than it asked for");
    if (m.rx[i]) vp_assert((n == 0) | ((n == 1) & (s == m.rq[i])), "an exclusive request is met entirely by one bid or not at all");
    if (m.rx[i] && n) vp_reach("exclusive request met");
  }
  for (int j = 0; j < m.s.nb; ++j) {
    double s = 0; int n = 0;
    for (int a = 0; a < m.s.na; ++a) if (m.s.arc[a][1] == j) { s += m.flow[a]; n += m.matched[a]; }
    vp_assert(s <= m.bq[j], "a bid never supplies more than it offered");
    if (m.bx[j]) vp_assert((n == 0) | ((n == 1) & (s == m.bq[j])), "an exclusive bid is taken entirely by one request or not at all");
    if (m.bx[j] && n) vp_reach("exclusive bid taken");
  }
  if (m.shared) vp_assert(ms.size() <= 1, "an exclusive resource offered to several requests goes to one of them");
  for (int k = 0; k < m.nrg; ++k) {
    double s = 0;
    for (int a = 0; a < m.s.na; ++a) if (m.s.rg[m.s.arc[a][0]] == k) s += m.flow[a];
    vp_assert(s <= m.target[k], "a request portfolio never receives more than its total");
  }
  for (int h = 0; h < m.nbg; ++h)
    for (int c = 0; c < m.ncap[h]; ++c) {
      if (m.cap[h][c] == kInf) continue;
      double s = 0;
      for (int a = 0; a < m.s.na; ++a) if (m.s.bg[m.s.arc[a][1]] == h) s += m.flow[a] * m.unit[a][c];
      vp_assert(s <= m.cap[h][c], "a bid portfolio's capacity constraints are all respected");
      if (s == m.cap[h][c] && s > 0) vp_reach("capacity used up");
    }
  if (narc == 2 && upat == 0 && (xpat == 0 || xpat >= 5)) {
    // a solver is used for one exchange after the other
    m.g.ClearMatches();
    solver.Solve(&m.g);
    const std::vector<Match>& again = m.g.matches();
    double f[4] = {0, 0, 0, 0};
    for (size_t k = 0; k < again.size(); ++k)
      for (int a = 0; a < m.s.na; ++a)
        if (again[k].first.unode() == m.r[m.s.arc[a][0]] && again[k].first.vnode() == m.b[m.s.arc[a][1]]) f[a] += again[k].second;
    bool same = true;
    for (int a = 0; a < m.s.na; ++a) same &= f[a] == m.flow[a];
    vp_assert(same, "solving the same exchange again gives the same solution");
    vp_reach("solved again");
  }
#else
  // the groups by weight, their requests by average preference, a request's
  // arcs by preference (ties: higher agent id first), each carrying all it can
  double ref[4] = {0, 0, 0, 0}, avg[2] = {0, 0}, wt[2] = {0, 0};
  for (int i = 0; i < m.s.nr; ++i) {
    int n = 0;
    for (int a = 0; a < m.s.na; ++a) if (m.s.arc[a][0] == i) { avg[i] += m.pref[a]; n++; }
    avg[i] /= n;
    double cw = wpat == 0 ? 1 : (i == 0) == (wpat == 2) ? 3 : 1;
    if (wpat == 3) cw = i == 0 ? 1 : 3;  // {3,1} reversed
    wt[i] = cw * (1 + avg[i] / (1 + avg[i]));
  }
  int gorder[2] = {0, 1};
  if (m.nrg == 2 && wt[1] > wt[0]) { gorder[0] = 1; gorder[1] = 0; }
  for (int gi = 0; gi < m.nrg; ++gi) {
    int ro[2], n = 0;
    for (int i = 0; i < m.s.nr; ++i) if (m.s.rg[i] == gorder[gi]) ro[n++] = i;
    if (n == 2 && avg[ro[1]] > avg[ro[0]]) std::swap(ro[0], ro[1]);  // ties: request 0 has the higher id
    for (int q = 0; q < n; ++q) {
      int ao[2], na = 0;
      for (int a = 0; a < m.s.na; ++a) if (m.s.arc[a][0] == ro[q]) ao[na++] = a;
      if (na == 2 && m.pref[ao[1]] >= m.pref[ao[0]]) std::swap(ao[0], ao[1]);  // ties: bid 1 has the higher id
      for (int x = 0; x < na; ++x) {
        int a = ao[x];
        double can = room(m, ref, a);
        if (excl(m, a)) { double wh = whole(m, a); can = can >= wh ? wh : 0; }
        if (m.shared) for (int z = 0; z < m.s.na; ++z) if (ref[z] > 0) can = 0;
        ref[a] = can > eps() ? can : 0;  // nothing below the tolerance is traded
      }
    }
  }
  bool same = true;
  double lobj = 0, un = 0, mx = 0;
  for (int a = 0; a < m.s.na; ++a) {
    same &= m.flow[a] == ref[a];
    lobj += ref[a] / m.pref[a];
    double c = 1 / m.pref[a];
    if (excl(m, a)) { double wh = whole(m, a); c = wh > 1 ? wh / m.pref[a] : wh > 0 ? c : 0; }
    mx = mx > c ? mx : c;
  }
  vp_assert(same, "requests are served in order of weight and preference, each by its most preferred bids, as far as they reach");
  for (int k = 0; k < m.nrg; ++k) {
    un += m.target[k];
    for (int a = 0; a < m.s.na; ++a) if (m.s.rg[m.s.arc[a][0]] == k) un -= ref[a];
  }
  if (xpat == 0) {
    vp_assert(near(obj, lobj + un * (mx * (1 + 0.1)), 1e-6), "the objective is the cost of the matches plus the penalty for unmet demand");
    if (un > 0) vp_reach("unmet demand");
  }
#endif
}
