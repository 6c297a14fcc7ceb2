// C25: demand functions and the supply that production managers add up; POSITION: C28.
#include "common.h"
#include "toolkit/commodity_producer.h"
#include "toolkit/commodity_producer_manager.h"
#include "toolkit/position.h"
#include "toolkit/supply_demand_manager.h"
#include "toolkit/symbolic_function_factories.h"
#include "toolkit/symbolic_functions.h"
using namespace vph;
using namespace cyclus::toolkit;
#ifdef POSITION
static const double tol = 0.05 / 3600 + 0.5e-6 + 1e-9;
void vp_harness() {
  int what = vp_choose("what", 0, 3);
  double lat = vp_double("latitude", -128, 128, -12), lon = vp_double("longitude", -256, 256, -12);
  bool okla = (lat >= -90) & (lat <= 90), oklo = (lon >= -180) & (lon <= 180);
  Position p(10, 20);
  Out o;
  if (what == 0) { o = attempt([&] { p = Position(lat, lon); }); vp_assert((o == OK) == (okla & oklo), "a position is refused exactly if it is off the globe"); }
  else if (what == 1) { o = attempt([&] { p.set_position(lat, lon); }); vp_assert((o == OK) == (okla & oklo), "a position is refused exactly if it is off the globe"); }
  else if (what == 2) { o = attempt([&] { p.latitude(lat); }); vp_assert((o == OK) == okla, "a latitude is refused exactly if it is off the globe"); }
  else { o = attempt([&] { p.longitude(lon); }); vp_assert((o == OK) == oklo, "a longitude is refused exactly if it is off the globe"); }
  vp_assert(o == OK || o == VALUE, "off the globe raises ValueError");
  double wla = o == OK && what != 3 ? lat : 10, wlo = o == OK && what != 2 ? lon : 20;
  vp_assert(near(p.latitude(), wla, tol), "the latitude is the one set, to a tenth of a second");
  vp_assert(near(p.longitude(), wlo, tol), "the longitude is the one set, to a tenth of a second");
  vp_reach(o == OK ? "set" : "refused");
}
#else
static const int G = -4;
static const double kSlope[] = {0, 1, -2, 3};
void vp_harness() {
  const bool th = vp_sym_tier();
  int what = vp_choose("what", 0, 1);
  if (what == 0) {
    const int N = 3;
    PiecewiseFunctionFactory pff;
    SymFunction::Ptr pw = pff.GetFunctionPtr("");
    struct Piece { double slope, icpt, at, off; };
    std::vector<Piece> in;
    double x = vp_double("x", -16, 16, G);
    vp_assert(pw->value(x) == 0, "a function without pieces is zero");
    for (int i = 0; i < N; ++i) {
      Piece p;
      p.slope = kSlope[th ? vp_choose("slope", 0, 3) : i + 1];
      p.icpt = vp_double("intercept", -8, 8, G);
      p.at = vp_double("start", -8, 8, G);
      bool cont = vp_choose("continuous", 0, 1);
      SymFunction::Ptr f(new LinearFunction(p.slope, p.icpt));
      vp_assert(f->value(x) == p.slope * x + p.icpt, "a linear function is slope times argument plus intercept");
      Out o = attempt([&] { pff.AddFunction(f, p.at, cont); });
      bool bad = !in.empty() && p.at <= in.back().at;
      vp_assert((o != OK) == bad, "a piece is refused exactly if it does not start after the last");
      if (o != OK) { vp_reach("refused"); continue; }
      p.off = 0;
      if (cont) {
        double before = in.empty() ? 0 : in.back().slope * (p.at - in.back().at) + in.back().icpt + in.back().off;
        p.off = before - p.icpt;
        vp_assert(near(pw->value(p.at), before, 1e-9), "a continuous piece starts where the function was");
      }
      in.push_back(p);
    }
    double want = 0;
    for (size_t i = 0; i < in.size(); ++i) if (x >= in[i].at) want = in[i].slope * (x - in[i].at) + in[i].icpt + in[i].off;
    vp_assert(near(pw->value(x), want, 1e-9), "the value is that of the last piece that has started, zero before the first");
    vp_assert(attempt([&] { pff.GetFunctionPtr("1 2"); }) != OK, "piecewise functions take no parameters");
    vp_reach(in.size() == 3 ? "three pieces" : "fewer pieces");
  } else {
    // producers come, go and change
    const int P = 2, M = 2, C = 2;
    Commodity com[] = {Commodity("power"), Commodity("fuel")};
    std::vector<CommodityProducer*> pr;
    std::vector<CommodityProducerManager*> ma;
    SupplyDemandManager sdm;
    double cap[P][C]; bool makes[P][C], reg[M][P], known[M];
    double dflt = vp_double("default capacity", 0, 16, G);
    for (int i = 0; i < P; ++i) { pr.push_back(new CommodityProducer(dflt, 2)); for (int c = 0; c < C; ++c) { makes[i][c] = false; cap[i][c] = 0; } }
    for (int m = 0; m < M; ++m) { ma.push_back(new CommodityProducerManager()); known[m] = false; for (int i = 0; i < P; ++i) reg[m][i] = false; }
    sdm.RegisterProducerManager(ma[0]); known[0] = true;
    ma[0]->Register(pr[0]); reg[0][0] = true;
    double slope = kSlope[3], icpt = vp_double("intercept", -8, 8, G);
    BasicFunctionFactory bff;
    SymFunction::Ptr dem(new LinearFunction(slope, icpt));
    sdm.RegisterCommodity(com[0], dem);
    vp_assert(sdm.ManagesCommodity(com[0]) && !sdm.ManagesCommodity(com[1]), "the commodities managed are those registered");
    int t = vp_int("time", 0, 100);
    vp_assert(near(sdm.Demand(com[0], t), slope * t + icpt, 1e-9), "the demand is that of the demand function");
    double first = vp_double("capacity", 0, 16, G);
    pr[0]->Add(com[0], CommodInfo(first, 1));
    makes[0][0] = true; cap[0][0] = first;
    const int OPS = th ? 4 : 3;
    for (int k = 0; k < OPS; ++k) {
      int op = vp_choose("op", 0, 6);
      int i = vp_choose("producer", 0, P - 1);
      int c = op <= 2 ? vp_choose("commodity", 0, C - 1) : 0;
      int m = op >= 3 && op <= 5 ? vp_choose("manager", 0, M - 1) : 0;
      if (op == 0) { double q = vp_double("capacity", 0, 16, G); pr[i]->Add(com[c], CommodInfo(q, 1)); if (!makes[i][c]) { makes[i][c] = true; cap[i][c] = q; } vp_reach("added"); }
      else if (op == 1) { if (!makes[i][c]) { makes[i][c] = true; cap[i][c] = dflt; } pr[i]->Add(com[c]); }
      else if (op == 2) { pr[i]->Rm(com[c]); makes[i][c] = false; cap[i][c] = 0; vp_reach("removed"); }
      else if (op == 3) { ma[m]->Register(pr[i]); reg[m][i] = true; vp_reach("registered"); }
      else if (op == 4) { ma[m]->Unregister(pr[i]); reg[m][i] = false; vp_reach("unregistered"); }
      else if (op == 5) {
        if (known[m]) sdm.UnregisterProducerManager(ma[m]); else sdm.RegisterProducerManager(ma[m]);
        known[m] = !known[m];
      } else {
        int j = 1 - i;
        pr[i]->Copy(pr[j]);
        for (int d = 0; d < C; ++d) if (makes[j][d]) { makes[i][d] = true; cap[i][d] = cap[j][d]; }
        vp_reach("copied");
      }
      if (k < OPS - 1 && !th) continue;
      for (int d = 0; d < C; ++d) {
        double all = 0;
        for (int n = 0; n < M; ++n) {
          double tot = 0;
          for (int q = 0; q < P; ++q) if (reg[n][q] && makes[q][d]) tot += cap[q][d];
          vp_assert(near(ma[n]->TotalCapacity(com[d]), tot, 1e-9), "a manager's capacity is that of its producers of the commodity");
          if (known[n]) all += tot;
        }
        vp_assert(near(sdm.Supply(com[d]), all, 1e-9), "the supply is the capacity of all managers registered");
        for (int q = 0; q < P; ++q) {
          vp_assert(pr[q]->Produces(com[d]) == makes[q][d], "a producer produces what was added and not removed");
          vp_assert(pr[q]->ProducedCommodities().count(com[d]) == makes[q][d], "the commodities listed are those produced");
          if (makes[q][d]) vp_assert(pr[q]->Capacity(com[d]) == cap[q][d], "the capacity is the one set");
        }
      }
    }
  }
}
#endif
