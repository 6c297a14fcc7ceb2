// C37: whole simulations of the reference facilities: what they give and take in
// every step, for all capacities and inventory sizes.
#include "infile.h"
#include "greedy_solver.h"
#include "sink.cc"
#include "source.cc"
#include "k_facility.cc"
static const int G = -4;
static const double kTol = 1e-5;
static double lower(double a, double b) { return a < b ? a : b; }
static std::string num(double x) { dval.push_back(x); return "@" + str((int)dval.size() - 1); }

struct Fac {
  Fac() : give(0), take(0), size(1e299), kin(1), kout(1), held(0), enter(0), life(-1), id(-1) {}
  std::string proto, recipe;
  double give, take, size, kin, kout, held;
  int enter, life, id;
  bool active(int t) const { return t >= enter && (life < 0 || t < enter + life); }
};
template <class A> static void add(Sim& e, Fac& f, const std::string& spec, const std::string& body) {
  A* a = fresh<A>(e, spec);
  load(a, body, f.life);
  A* p = fresh<A>(e, spec);
  restore(p, e, a->id());
  p->prototype(f.proto);
  e.ctx->AddPrototype(f.proto, p);
  if (f.enter) e.ctx->SchedBuild(NULL, f.proto, f.enter);
  else e.ctx->CreateAgent<A>(f.proto)->Build(NULL);
}

void vp_harness() {
  warn_limit = 0;
  dval.clear(); ival.clear();
  CompMap v; v[922350000] = 1;
  Composition::Ptr ca = Composition::CreateFromMass(v);
  v[922380000] = 3;
  Composition::Ptr cb = Composition::CreateFromMass(v);
  int dur = vp_sym_tier() ? 3 : 2;
  Sim e;
  e.init(dur);
  e.ctx->solver(new GreedySolver(true));
  e.ctx->AddRecipe("ra", ca);
  e.ctx->AddRecipe("rb", cb);
  int kind = vp_choose("kind", 0, 3);  // source and sink, two of each, facilities of both kinds, late and short-lived ones
  std::vector<Fac> fs;
  if (kind != 2) {
    Fac s;
    s.proto = "source"; s.give = vp_double("supply", 0, 4096, G);
    s.recipe = kind == 0 && vp_choose("recipe", 0, 1) ? "" : "ra";
    if (kind == 3) { s.life = vp_choose("life", 1, dur); s.enter = vp_choose("enter", 0, dur - 1); }
    add<Source>(e, s, ":agents:Source", el("commod", "c") + (s.recipe.empty() ? "" : el("recipe_name", s.recipe)) + el("capacity", num(s.give)));
    fs.push_back(s);
    Fac k;
    k.proto = "sink"; k.take = vp_double("demand", 0, 4096, G);
    bool sized = kind == 0 && vp_choose("sized", 0, 1);
    if (sized) { k.size = vp_double("size", 0, 6144, G); }
    bool rec = kind == 0 && vp_choose("sink recipe", 0, 1);
    if (kind == 3) { k.enter = vp_choose("enter", 0, 1); }
    add<Sink>(e, k, ":agents:Sink", el("in_commods", el("val", "c") + el("val", "other")) + (rec ? el("recipe_name", "rb") : "") +
              (sized ? el("max_inv_size", num(k.size)) : "") + el("capacity", num(k.take)));
    k.recipe = rec ? "rb" : "";
    fs.push_back(k);
    if (kind == 1) {
      Fac s2 = s, k2 = k;
      s2.proto = "source2"; s2.give = vp_double("supply", 0, 4096, G); s2.recipe = "rb";
      add<Source>(e, s2, ":agents:Source", el("commod", "c") + el("recipe_name", "rb") + el("capacity", num(s2.give)));
      fs.push_back(s2);
      k2.proto = "sink2"; k2.take = vp_double("demand", 0, 4096, G);
      k2.size = vp_double("size", 0, 6144, G);
      add<Sink>(e, k2, ":agents:Sink", el("in_commods", el("val", "c")) + el("max_inv_size", num(k2.size)) + el("capacity", num(k2.take)));
      fs.push_back(k2);
    }
  } else {
    static const double kF[] = {1, 2, 0.5};
    for (int i = 0; i < 2; ++i) {
      Fac f;
      f.proto = i ? "k1" : "k0"; f.recipe = i ? "rb" : "ra";
      f.give = vp_double("supply", 0, 4096, G);
      f.take = vp_double("demand", 0, 4096, G);
      f.kin = kF[vp_choose("k in", 0, 2)];
      f.kout = i ? 1 : kF[vp_choose("k out", 0, 2)];
      if (i) f.size = vp_double("size", 0, 6144, G);
      add<KFacility>(e, f, ":agents:KFacility", el("in_commod", i ? "x" : "y") + el("recipe_name", f.recipe) + el("out_commod", i ? "y" : "x") +
                     el("in_capacity", num(f.take)) + el("out_capacity", num(f.give)) + (i ? el("max_inv_size", num(f.size)) : "") +
                     el("k_factor_in", num(f.kin)) + el("k_factor_out", num(f.kout)));
      fs.push_back(f);
    }
  }
  Out o = attempt([&] { try { e.ti.RunSim(); } catch (Error& x) { if (getenv("VP_SHOW")) puts(x.what()); throw; } });
  vp_assert(o == OK, "a simulation of facilities within their capacities runs to its end");
  if (o != OK) return;
  e.rec.Flush();
  std::vector<Row> en = e.mem.table("AgentEntry"), tx = e.mem.table("Transactions"), rs = e.mem.table("Resources");
  for (size_t i = 0; i < fs.size(); ++i)
    for (size_t k = 0; k < en.size(); ++k) if (en[k].get<std::string>("Prototype") == fs[i].proto) {
      vp_assert(en[k].get<int>("EnterTime") == fs[i].enter && fs[i].id < 0, "each facility is built once, when scheduled");
      fs[i].id = en[k].get<int>("AgentId");
    }
  for (int t = 0; t < dur; ++t) {
    int n = fs.size();
    std::vector<double> out(n, 0.0), in(n, 0.0);
    for (size_t k = 0; k < tx.size(); ++k) {
      if (tx[k].get<int>("Time") != t) continue;
      int s = -1, r = -1, res = tx[k].get<int>("ResourceId");
      for (int i = 0; i < n; ++i) { if (fs[i].id == tx[k].get<int>("SenderId")) s = i; if (fs[i].id == tx[k].get<int>("ReceiverId")) r = i; }
      vp_assert(s >= 0 && r >= 0 && s != r, "trades are between the facilities");
      if (s < 0 || r < 0) return;
      const Row* w = NULL;
      for (size_t j = 0; j < rs.size(); ++j) if (rs[j].get<int>("ResourceId") == res) w = &rs[j];
      vp_assert(w != NULL, "what is traded is recorded");
      if (!w) return;
      double q = w->get<double>("Quantity");
      out[s] += q;
      in[r] += q;
      std::string rec = fs[s].recipe.empty() ? fs[r].recipe : fs[s].recipe;
      int qual = w->get<int>("QualId");
      if (!rec.empty()) vp_assert(qual == (rec == "ra" ? ca : cb)->id(), "what is supplied has the supplier's recipe, or the composition asked for if it has none");
    }
    double sup[2] = {0, 0}, dem[2] = {0, 0}, moved[2] = {0, 0};
    for (int i = 0; i < n; ++i) {
      bool on = fs[i].active(t);
      double want = on ? lower(fs[i].take, fs[i].size - fs[i].held) : 0, have = on ? fs[i].give : 0;
      vp_assert(out[i] <= have + kTol, "a facility supplies no more than its capacity in a step");
      vp_assert(in[i] <= want + kTol, "a facility takes no more than its capacity and inventory allow in a step");
      int mi = kind == 2 ? i : 0, mo = kind == 2 ? 1 - i : 0;  // market it buys and sells on
      sup[mo] += have; dem[mi] += want; moved[mi] += in[i];
      fs[i].held += in[i];
    }
    for (int m = 0; m < 2; ++m) {
      vp_assert(moved[m] >= lower(sup[m], dem[m]) - kTol, "what is supplied and wanted is traded");
      if (moved[m] > 0) vp_reach(kind == 2 ? "both ways" : kind == 1 ? "several" : kind == 3 ? "limited life" : "traded");
    }
    for (int i = 0; i < n; ++i) { fs[i].take *= fs[i].kin; fs[i].give *= fs[i].kout; if (fs[i].size - fs[i].held < fs[i].take) vp_reach("full"); }
  }
  delete e.ctx;
}
