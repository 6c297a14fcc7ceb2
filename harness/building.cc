// C38: a building manager orders what meets a demand for capacity: the program it hands to the optimiser is the
// decision to be made, and the optimiser's answer is carried out as it is.
#include "common.h"
#include "OsiClpSolverInterface.hpp"
#include "OsiCbcSolverInterface.hpp"
#include "prog_translator.h"
#include "toolkit/building_manager.h"
#include "toolkit/commodity_producer.h"
using namespace vph;
using toolkit::Builder;
using toolkit::BuildOrder;
using toolkit::Commodity;
using toolkit::CommodityProducer;

// what the optimiser is told and answers
struct Told {
  int solves, ncol;
  double objective, capacity;  // of the answer
  bool met;                    // the answer meets every row
  double answer[6];
} told;

// Stands in for the optimiser: any whole numbers, each within the optimiser's tolerance, are an answer
class VpOptimiser : public OsiClpSolverInterface {
 public:
  VpOptimiser() : branched_(false), n_(0) {}
  using OsiClpSolverInterface::loadProblem;
  virtual void loadProblem(const CoinPackedMatrix& m, const double* cl, const double* cu, const double* obj, const double* rl, const double* ru) {
    n_ = m.getNumCols();
    m_ = m;
    cl_.assign(cl, cl + n_);
    cu_.assign(cu, cu + n_);
    obj_.assign(obj, obj + n_);
    rl_.assign(rl, rl + m.getNumRows());
    ru_.assign(ru, ru + m.getNumRows());
    whole_.assign(n_, false);
  }
  virtual void setInteger(int i) { whole_.at(i) = true; }
  virtual void setInteger(const int* v, int n) { for (int i = 0; i < n; ++i) whole_.at(v[i]) = true; }
  virtual void setContinuous(int i) { whole_.at(i) = false; }
  virtual int getNumCols() const { return n_; }
  virtual int getNumRows() const { return (int)rl_.size(); }
  virtual void initialSolve() {}
  virtual void resolve() {}
  virtual void branchAndBound() {
    told.solves++;
    told.ncol = n_;
    vp_assert(getObjSense() == 1.0, "the cost is to be least");
    double inf = getInfinity();
    told.objective = 0;
    told.met = true;
    for (int i = 0; i < n_; ++i) {
      vp_assert(whole_[i], "facilities are built whole");
      vp_assert(cl_[i] == 0 && cu_[i] >= inf, "any number of facilities may be built, from none");
      int k = vp_int("number", 0, 8);
      double e = vp_double("within tolerance", -0x1p-22, 0x1p-22, -30);
      told.answer[i] = k;
      sol_.push_back(k + e);
      told.objective += obj_[i] * k;
    }
    CoinPackedMatrix m = m_;
    if (m.isColOrdered()) m.reverseOrdering();
    for (int w = 0; w < (int)rl_.size(); ++w) {
      CoinShallowPackedVector v = m.getVector(w);
      double sum = 0;
      for (int e = 0; e < v.getNumElements(); ++e) sum += v.getElements()[e] * told.answer[v.getIndices()[e]];
      told.met &= (rl_[w] <= sum) & ((sum <= ru_[w]) | (ru_[w] >= inf));
    }
    branched_ = true;
  }
  virtual const double* getColSolution() const {
    vp_assert(branched_, "whole numbers are searched for before the answer is read");
    return sol_.empty() ? NULL : &sol_[0];
  }
 private:
  bool branched_;
  int n_;
  CoinPackedMatrix m_;
  std::vector<double> cl_, cu_, obj_, rl_, ru_, sol_;
  std::vector<bool> whole_;
};
#undef CYCLUS_SRC_TOOLKIT_BUILDING_MANAGER_H_
#define OsiCbcSolverInterface VpOptimiser
#define BuildingManager VpBuildingManager
#define BuildOrder VpBuildOrder
#include "toolkit/building_manager.cc"
#undef OsiCbcSolverInterface
#undef BuildingManager
#undef BuildOrder
typedef toolkit::VpBuildingManager Manager;
typedef toolkit::VpBuildOrder Order;

static const int B = 2, P = 3;
static const double kCap[P][2] = {{2, 0.5}, {3, 8}, {0.75, 5}};
static const double kCost[P][2] = {{5, 1}, {7, 16}, {11, 3}};

void vp_harness() {
  int t = vp_sym_tier();
  Commodity com[2] = {Commodity("power"), Commodity("fuel")};
  Manager man;
  Builder* b[B];
  CommodityProducer* p[P];
  bool makes[P][2], has[B][P], known[B];
  double cap[P][2], cost[P][2];
  for (int i = 0; i < B; ++i) b[i] = new Builder();
  for (int j = 0; j < P; ++j) {
    p[j] = new CommodityProducer(6, 13);
    for (int c = 0; c < 2; ++c) makes[j][c] = false;
  }
  // who makes what, and who builds whom
  static const int kMakes[][P] = {{1, 1, 1}, {1, 2, 3}, {3, 3, 1}, {2, 0, 1}, {0, 2, 2}};
  static const int kHas[][P] = {{1, 1, 2}, {1, 2, 3}, {2, 2, 2}, {3, 1, 0}};
  int mk = vp_choose("makers", 0, 4), bd = t ? vp_choose("builders", 0, 3) : (mk + vp_choose("builders", 0, 1)) % 4;
  for (int i = 0; i < B; ++i) {
    known[i] = true;
    man.Register(b[i]);
    for (int j = 0; j < P; ++j) {
      has[i][j] = kHas[bd][j] >> i & 1;
      if (has[i][j]) b[i]->Register(p[j]);
    }
  }
  for (int j = 0; j < P; ++j)
    for (int c = 0; c < 2; ++c)
      if (kMakes[mk][j] >> c & 1) {
        p[j]->Add(com[c]);
        makes[j][c] = true;
        cap[j][c] = kCap[j][c];
        cost[j][c] = kCost[j][c];
        if (j == 1 && c == 0 && bd == 1) { cap[j][c] = 6; cost[j][c] = 13; continue; }  // the producer's own defaults
        if (j != 1) cost[j][c] = vp_double("cost", 0, 16, -4);
        p[j]->SetCapacity(com[c], cap[j][c]);
        p[j]->SetCost(com[c], cost[j][c]);
      }
  int steps = t ? 3 : 2;
  for (int k = 0; k < steps; ++k) {
    if (k) switch (vp_choose("change", 0, 4)) {
      case 0: break;
      case 1: man.Unregister(b[0]); known[0] = false; break;
      case 2: b[1]->Unregister(p[1]); has[1][1] = false; b[0]->Register(p[2]); has[0][2] = true; break;
      case 3: p[0]->Rm(com[0]); makes[0][0] = false; break;
      default: if (makes[1][0]) { p[1]->SetCapacity(com[0], 1.5); cap[1][0] = 1.5; p[1]->SetCost(com[0], 2); cost[1][0] = 2; }
    }
    int c = vp_choose("commodity", 0, 1);
    double demand = vp_double("demand", -4, 64, -10);
    told.solves = 0;
    told.ncol = 0;
    told.met = false;
    std::vector<Order> o = man.MakeBuildDecision(com[c], demand);
    int able = 0;
    for (int j = 0; j < P; ++j) {
      bool any = false;
      for (int i = 0; i < B; ++i) any |= known[i] && has[i][j];
      able += any && makes[j][c];
    }
    if (!(demand > 0)) {
      vp_assert(o.empty(), "without a demand nothing is built");
      vp_reach("no demand");
      continue;
    }
    if (!able) {
      vp_assert(o.empty(), "what nobody makes is not built");
      vp_reach("nobody");
      continue;
    }
    vp_assert(told.solves == 1, "the optimiser decides");
    vp_assert(told.ncol >= able, "every producer of the commodity may be built");
    double got = 0, paid = 0, answered = 0, built = 0;
    for (size_t q = 0; q < o.size(); ++q) {
      int i = -1, j = -1;
      for (int x = 0; x < B; ++x) if (o[q].builder == b[x]) i = x;
      for (int x = 0; x < P; ++x) if (o[q].producer == p[x]) j = x;
      vp_assert(i >= 0 && j >= 0 && known[i] && has[i][j], "who builds is registered and registers what it builds");
      vp_assert(makes[j][c], "what is built makes what is demanded");
      vp_assert(o[q].number > 0, "an order builds something");
      got += cap[j][c] * o[q].number;
      paid += cost[j][c] * o[q].number;
      built += o[q].number;
    }
    for (int x = 0; x < told.ncol; ++x) answered += told.answer[x];
    vp_assert(built == answered, "as many are built as the optimiser answered");
    vp_assert(told.met == (got >= demand), "an answer is allowed exactly when what is built meets the demand");
    vp_assert(paid == told.objective, "an answer costs what is built costs");
    vp_reach(o.empty() ? "nothing" : "built");
    if (o.size() == 3) vp_reach("three kinds");
  }
}
