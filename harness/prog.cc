// C09: the linear program handed to the optimiser has exactly the exchange's
// solutions, and its solutions are read back as they are.
#include "common.h"
#include "OsiClpSolverInterface.hpp"
#include "exchange_graph.h"
#include "exchange_solver.h"
#include "prog_translator.h"
using namespace vph;
static const int G = -8;
static const double kInf = std::numeric_limits<double>::max();
class Iface : public OsiClpSolverInterface {
 public:
  std::vector<double> sol;
  virtual const double* getColSolution() const { return &sol[0]; }
  // the program as it is handed over
  bool loaded = false;
  CoinPackedMatrix m;
  std::vector<double> lo, hi, obj, rlo, rhi;
  static std::vector<double> take(const double* p, int n, double none) {
    std::vector<double> v;
    for (int i = 0; i < n; ++i) v.push_back(p ? p[i] : none);
    return v;
  }
  using OsiClpSolverInterface::loadProblem;
  virtual void loadProblem(const CoinPackedMatrix& mx, const double* cl, const double* cu, const double* o, const double* rl, const double* ru) {
    double inf = getInfinity();
    loaded = true;
    m = mx;
    lo = take(cl, mx.getNumCols(), 0);
    hi = take(cu, mx.getNumCols(), inf);
    obj = take(o, mx.getNumCols(), 0);
    rlo = take(rl, mx.getNumRows(), -inf);
    rhi = take(ru, mx.getNumRows(), inf);
    OsiClpSolverInterface::loadProblem(mx, cl, cu, o, rl, ru);
  }
};
struct Shape { int nr, nb; int rg[2], bg[2]; int na; int arc[4][2]; };
static const Shape kShape[] = {
    {1, 2, {0, 0}, {0, 0}, 2, {{0, 0}, {0, 1}}},
    {2, 2, {0, 0}, {0, 0}, 2, {{0, 0}, {1, 1}}},
    {2, 2, {0, 1}, {0, 0}, 2, {{0, 0}, {1, 1}}},
    {2, 2, {0, 1}, {0, 1}, 4, {{0, 0}, {0, 1}, {1, 0}, {1, 1}}},
};

void vp_harness() {
  int t = vp_sym_tier();
  const Shape& s = kShape[vp_choose("shape", 0, 3)];
  bool excl = vp_choose("exclusive orders", 0, 1);
  int xpat = vp_choose("exclusive", 0, 3);  // none, request 0, bid 0, both bids (of one object)
  int empty = vp_choose("idle request group", 0, 2);  // none, first, last
  int upat = vp_choose("units", 0, t ? 3 : 2);
  // columns of exclusive arcs scale the matrix, which lives in the COIN library: concrete quantities there
  bool conc = excl && xpat;
  static const double kQ[3][2] = {{2, 4}, {4, 4}, {4, 2}};
  int qp = conc ? vp_choose("quantities", 0, 2) : 0;
  ExchangeNode::Ptr r[2], b[2];
  double rq[2], bq[2];
  bool rx[2], bx[2];
  int nrg = 1, nbg = 1;
  for (int i = 0; i < s.nr; ++i) {
    rq[i] = conc ? kQ[qp][0] : vp_double("request", 0, 64, G);
    rx[i] = xpat == 1 && i == 0;
    r[i] = ExchangeNode::Ptr(new ExchangeNode(rq[i], rx[i], "c", i));
    if (s.rg[i]) nrg = 2;
  }
  for (int j = 0; j < s.nb; ++j) {
    bq[j] = conc ? kQ[qp][1] : vp_double("bid", 0, 64, G);
    bx[j] = (xpat == 2 && j == 0) || xpat == 3;
    b[j] = ExchangeNode::Ptr(new ExchangeNode(bq[j], bx[j], "c", 10 + j));
    if (s.bg[j]) nbg = 2;
  }
  ExchangeGraph g;
  RequestGroup::Ptr idle(new RequestGroup(5));
  idle->AddExchangeNode(ExchangeNode::Ptr(new ExchangeNode(5, false, "c", 99)));
  idle->AddCapacity(5);
  if (empty == 1) g.AddRequestGroup(idle);
  RequestGroup::Ptr rg[2];
  ExchangeNodeGroup::Ptr bg[2];
  double dem[2], cap[2][2];
  for (int k = 0; k < nrg; ++k) {
    dem[k] = vp_double("demand", 0, 64, G);
    rg[k] = RequestGroup::Ptr(new RequestGroup(dem[k]));
    for (int i = 0; i < s.nr; ++i) if (s.rg[i] == k) rg[k]->AddExchangeNode(r[i]);
    rg[k]->AddCapacity(dem[k]);
    g.AddRequestGroup(rg[k]);
  }
  if (empty == 2) g.AddRequestGroup(idle);
  static const double kUnit[][4][2] = {{{1, 1}, {1, 1}, {1, 1}, {1, 1}}, {{0.5, 2}, {2, 0.5}, {1, 2}, {2, 1}}, {{0, 1}, {1, 0}, {2, 0}, {0, 0.5}}, {{4, 1}, {1, 4}, {1, 1}, {0.25, 0}}};
  int ncap = upat == 0 ? 1 : 2;
  for (int k = 0; k < nbg; ++k) {
    bg[k] = ExchangeNodeGroup::Ptr(new ExchangeNodeGroup());
    std::vector<ExchangeNode::Ptr> xg;
    for (int j = 0; j < s.nb; ++j) if (s.bg[j] == k) { bg[k]->AddExchangeNode(b[j]); if (bx[j]) xg.push_back(b[j]); }
    if (!xg.empty()) bg[k]->AddExclGroup(xg);
    for (int c = 0; c < ncap; ++c) { cap[k][c] = vp_double("capacity", 0, 64, G); bg[k]->AddCapacity(cap[k][c]); }
    g.AddSupplyGroup(bg[k]);
  }
  static const double kPref[] = {2, 1, 4, 0.5};
  double pref[4], rcoef[4], whole[4];
  bool ax[4];
  for (int a = 0; a < s.na; ++a) {
    int i = s.arc[a][0], j = s.arc[a][1];
    Arc arc(r[i], b[j]);
    pref[a] = kPref[a];
    arc.pref(pref[a]);
    r[i]->prefs[arc] = pref[a];
    rcoef[a] = upat == 1 ? (i ? 0.5 : 2) : 1;
    r[i]->unit_capacities[arc].push_back(rcoef[a]);
    for (int c = 0; c < ncap; ++c) b[j]->unit_capacities[arc].push_back(kUnit[upat][a][c]);
    g.AddArc(arc);
    ax[a] = excl && (rx[i] || bx[j]);
    whole[a] = 0;
    if (ax[a]) whole[a] = rx[i] && bx[j] ? (rq[i] == bq[j] ? rq[i] : 0) : rx[i] ? (rq[i] <= bq[j] ? rq[i] : 0) : (bq[j] <= rq[i] ? bq[j] : 0);
  }
  Iface iface;
  double pc = vp_choose("pseudo cost", 0, 1) ? 12.5 : 3;
  ProgTranslator pt(&g, &iface, excl, pc);
  pt.ToProg();
  const auto& ctx = pt.ctx();
  if (!iface.loaded) {
    iface.m = ctx.m; iface.lo = ctx.col_lbs; iface.hi = ctx.col_ubs; iface.obj = ctx.obj_coeffs; iface.rlo = ctx.row_lbs; iface.rhi = ctx.row_ubs;
  }
  int ncol = s.na + nrg;
  vp_assert(iface.m.getNumCols() == ncol, "one variable per arc and one for the unmet demand of each group with bids");
  vp_assert((int)ctx.row_lbs.size() == ctx.m.getNumRows() && (int)ctx.row_ubs.size() == ctx.m.getNumRows(), "every row has bounds");
  vp_assert(iface.getNumCols() == ncol && iface.getNumRows() == iface.m.getNumRows(), "the program is loaded");
  double inf = iface.getInfinity();
  // an arbitrary point
  std::vector<double> x(ncol), f(s.na);
  for (int a = 0; a < s.na; ++a) {
    if (ax[a]) { x[a] = vp_choose("taken", 0, 1); f[a] = x[a] * whole[a]; }
    else if (a == 0 && s.nr == 1 && upat == 0 && vp_choose("negligible", 0, 1)) { f[a] = x[a] = 0x1p-28; vp_reach("negligible"); }
    else { x[a] = vp_double("flow", 0, 64, G); f[a] = x[a]; }
    vp_assert(iface.isInteger(a) == ax[a], "exactly the exclusive arcs are all-or-nothing decisions");
  }
  for (int k = 0; k < nrg; ++k) x[s.na + k] = vp_double("unmet", 0, 64, G);
  bool lp = true;
  double obj = 0;
  for (int c = 0; c < ncol; ++c) { lp &= (iface.lo[c] <= x[c]) & (x[c] <= iface.hi[c]); obj += iface.obj[c] * x[c]; }
  const CoinPackedMatrix& m = iface.m;
  for (int w = 0; w < m.getNumRows(); ++w) {
    CoinShallowPackedVector v = m.getVector(w);
    double sum = 0;
    for (int e = 0; e < v.getNumElements(); ++e) sum += v.getElements()[e] * x[v.getIndices()[e]];
    lp &= (iface.rlo[w] <= sum) & ((sum <= iface.rhi[w]) | (iface.rhi[w] >= inf));
  }
  // what the exchange allows
  bool ok = true;
  for (int a = 0; a < s.na; ++a) ok &= (f[a] <= rq[s.arc[a][0]]) & (f[a] <= bq[s.arc[a][1]]);
  for (int k = 0; k < nbg; ++k)
    for (int c = 0; c < ncap; ++c) {
      double sum = 0;
      for (int a = 0; a < s.na; ++a) if (s.bg[s.arc[a][1]] == k) sum += f[a] * kUnit[upat][a][c];
      ok &= sum <= cap[k][c];
    }
  for (int k = 0; k < nrg; ++k) {
    double sum = x[s.na + k];
    for (int a = 0; a < s.na; ++a) if (s.rg[s.arc[a][0]] == k) sum += f[a] * rcoef[a];
    ok &= sum >= dem[k];
  }
  if (excl) {
    for (int i = 0; i < s.nr; ++i) if (rx[i]) {
      double n = 0;
      for (int a = 0; a < s.na; ++a) if (s.arc[a][0] == i) n += x[a];
      ok &= n <= 1;
    }
    for (int k = 0; k < nbg; ++k) {
      double n = 0;
      for (int a = 0; a < s.na; ++a) if (s.bg[s.arc[a][1]] == k && bx[s.arc[a][1]]) n += x[a];
      ok &= n <= 1;
    }
  }
  vp_assert(!lp | ok, "every point the program allows respects the exchange's limits");
  vp_assert(!ok | lp, "every solution of the exchange is allowed by the program");
  double cost = 0;
  for (int a = 0; a < s.na; ++a) cost += f[a] * (1 / pref[a]);
  for (int k = 0; k < nrg; ++k) cost += x[s.na + k] * pc;
  vp_assert(obj == cost, "the program minimises flow over preference plus the penalty for unmet demand");
  vp_assert(iface.getObjSense() == 1, "the program minimises");
  // and back
  iface.sol = x;
  pt.FromProg();
  const std::vector<Match>& ms = g.matches();
  size_t k = 0;
  bool same = true;
  for (int a = 0; a < s.na; ++a) {
    if (!(f[a] > eps())) continue;
    if (k < ms.size()) {
      same &= (ms[k].first.unode() == r[s.arc[a][0]]) & (ms[k].first.vnode() == b[s.arc[a][1]]);
      same &= ms[k].second == f[a];
    }
    ++k;
  }
  vp_assert(k == ms.size(), "every flow becomes one match");
  vp_assert(same, "a match carries its arc's flow");
  if (k) vp_reach("matched");
  if (conc) vp_reach("exclusive");
}
