// C24: what a commodity/recipe context was told is what it answers, also after cloning or restoring it.
#include "common.h"
#include "memq.h"
#include "db_init.h"
#include "toolkit/commodity_recipe_context.h"
using namespace vph;
using toolkit::CommodityRecipeContext;
static const char* kIn[] = {"in0", "in1"};
static const char* kOut[] = {"out0", "out1"};
static const char* kRec[] = {"rec0", "rec1", "rec2"};
void vp_harness() {
  const bool th = vp_sym_tier();
  Sim e;
  e.init(5);
  HFac* f = new HFac(e.ctx);
  f->spec(":h:hfac");
  f->Build(NULL);
  CommodityRecipeContext c;
  std::vector<Resource::Ptr> rs;
  std::vector<double> q;
  for (int i = 0; i < 2; ++i) { q.push_back(vp_double("quantity", 1, 16, -4)); rs.push_back(Product::Create(f, q[i], "goods")); }
  int known[2] = {0, 0}, inr[2], outr[2], outc[2], held[2] = {-1, -1};
  const int N = th ? 5 : 4;
  for (int k = 0; k < N; ++k) {
    int op = k == 0 ? 0 : vp_choose("op", 0, 4), i = vp_choose("which", 0, 1);
    if (op == 0) {
      // named again: other recipes, the same counterpart
      if (known[i]) vp_reach("named again");
      int o = known[i] ? outc[i] : vp_choose("out", 0, 1);
      int r = known[i] ? 1 - (inr[i] & 1) : vp_choose("recipe", 0, 1);
      c.AddInCommod(kIn[i], kRec[r], kOut[o], kRec[1 - r]);
      known[i] = 1; inr[i] = r; outr[i] = 1 - r; outc[i] = o;
    } else if (op == 1) { c.AddRsrc(kIn[0], rs[i]); held[i] = 0; vp_reach("held"); }
    else if (op == 2) { c.UpdateRsrc(kOut[1], rs[i]); held[i] = 1; }
    else if (op == 3) { c.RemoveRsrc(rs[i]); held[i] = -1; vp_reach("removed"); }
    else { if (!known[i]) vp_assume(false); c.UpdateInRec(kIn[i], kRec[2]); inr[i] = 2; }
    if (k == 1) rs[0]->ExtractRes(.25);  // a resource stays itself whatever is taken from it
  }
  // copies: cloned, and restored from a snapshot
  CommodityRecipeContext* cl = c.Clone();
  c.Snapshot(DbInit(f));
  e.rec.Flush();
  MemQ mq;
  mq.rows = e.mem.rows;
  PrefixInjector pi(&mq, "AgentState" + AgentSpec(f->spec()).Sanitize());
  CommodityRecipeContext re;
  re.InitFrom(&pi);
  vp_assert(*cl == c && re == c && !(*cl != c), "a copy or restored context is the same");
  CommodityRecipeContext* all[] = {&c, cl, &re};
  for (int n = 0; n < 3; ++n) {
    CommodityRecipeContext& x = *all[n];
    size_t ni = known[0] + known[1], no = 0;
    for (int o = 0; o < 2; ++o) {
      bool has = (known[0] && outc[0] == o) || (known[1] && outc[1] == o);
      no += has;
      vp_assert(x.out_commods().count(kOut[o]) == has, "the commodities going out are those named");
    }
    vp_assert(x.in_commods().size() == ni && x.out_commods().size() == no, "there are no other commodities");
    for (int i = 0; i < 2; ++i) {
      vp_assert(x.in_commods().count(kIn[i]) == (size_t)known[i], "the commodities coming in are those named");
      if (known[i]) vp_assert(x.in_recipe(kIn[i]) == kRec[inr[i]] && x.out_recipe(kIn[i]) == kRec[outr[i]] && x.out_commod(kIn[i]) == kOut[outc[i]], "each commodity has its recipes and counterpart");
      std::string w = held[i] < 0 ? "" : held[i] ? kOut[1] : kIn[0];
      vp_assert(x.commod(rs[i]) == w, "a resource has the commodity last given");
    }
  }
  // a changed copy does not change the original
  cl->AddInCommod("more", kRec[0], kOut[0], kRec[0]);
  vp_assert(c.in_commods().count("more") == 0 && *cl != c, "a copy is independent");
  vp_reach("copied");
}
