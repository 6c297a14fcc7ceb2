// C21: recorded inventories and time series; AGENTS: C23, the agents and names a simulation knows.
#include "common.h"
#include "comp_math.h"
#include "timer.h"
#include "toolkit/timeseries.h"
using namespace vph;
static const int G = -6;
static const int kNuc[] = {922350000, 922380000, 942390000};
static const double kComps[][3] = {{1, 3, 0}, {0, 1, 1}};
#ifndef AGENTS
static Composition::Ptr comp(int k) {
  CompMap c;
  for (int i = 0; i < 3; ++i) if (kComps[k][i] > 0) c[kNuc[i]] = kComps[k][i];
  return Composition::CreateFromMass(c);
}
static double frac(int k, int n) { return kComps[k][n] / (k == 0 ? 4 : 2); }
namespace {
struct Exp { int t, id; double q[2], p; int n; double x; };
std::vector<Exp> want;
double take, series[8];
int moves, nheard;
}  // namespace
class IFac : public HFac {
 public:
  IFac(Context* c) : HFac(c), n(0) {}
  virtual Agent* Clone() { IFac* m = new IFac(context()); m->InitFrom(this); return m; }
  virtual Inventories SnapshotInv() {
    Inventories i;
    for (int k = 0; k < n; ++k) i["stock"].push_back(m[k]);
    if (x) i["stock"].push_back(x);
    if (n == 2) i["second"].push_back(m[1]);
    i["none"];
    if (p) i["goods"].push_back(p);
    return i;
  }
  virtual void Tock() {
    int t = context()->time();
    if (t == moves && n == 2 && take <= m[0]->quantity()) {
      Material::Ptr x = m[0]->ExtractQty(take);
      lost[0] += take;
    }
    toolkit::RecordTimeSeries<double>("Load", this, series[t], "kg");
    if (t == 0) toolkit::RecordTimeSeries<toolkit::POWER>(this, series[0] + 1, "MWe");
    Exp e;
    e.t = t; e.id = id(); e.n = n; e.x = x ? 1 : 0; e.q[0] = q0[0] - lost[0]; e.q[1] = q0[1]; e.p = p ? p->quantity() : 0;
    want.push_back(e);
  }
  void stock(int k, double q0_, double q1_, double pq) {
    n = k;
    q0[0] = q0_; q0[1] = q1_; lost[0] = 0;
    if (k > 0) m[0] = Material::Create(this, q0_, comp(0));
    if (k > 1) m[1] = Material::Create(this, q1_, comp(1));
    p = Product::Create(this, pq, "goods");
  }
  Material::Ptr m[2], x;
  Product::Ptr p;
  int n;
  double q0[2], lost[2];
};
void vp_harness() {
  warn_limit = 0;
  want.clear();
  nheard = 0;
  void* hole = operator new(sizeof(IFac));  // agents are visited in the order of their addresses: a facility comes first
  Sim e;
  int flags = vp_choose("recorded", 0, 3), dur = 2;
  SimInfo si(dur);
  si.explicit_inventory = flags & 1;
  si.explicit_inventory_compact = flags & 2;
  e.ctx->InitSim(si);
  toolkit::TIME_SERIES_LISTENERS.clear();
  std::vector<double> heard;
  bool heardok = true;
  std::function<void(Agent*, int, double, std::string)> fn = [&](Agent* a, int t, double v, std::string s) { heard.push_back(v); heardok = heardok && s == "Load" && t == e.ctx->time(); };
  toolkit::TIME_SERIES_LISTENERS["Load"].push_back(fn);
  IFac* proto = new IFac(e.ctx);
  proto->stock(1, 3, 0, 1);
  e.ctx->AddPrototype("ifac", proto);
  operator delete(hole);
  IFac* f = new IFac(e.ctx);
  int k = vp_choose("materials", 0, 2);
  double a = vp_double("a", 0, 64, G), b = vp_double("b", 0, 64, G), pq = vp_double("goods", 0, 64, G);
  take = vp_double("taken", 0, 64, G);
  if (k == 2 && flags > 1) {  // mixtures: fractions are quotients, so a few fixed quantities
    static const double kA[] = {0, 3, 48}, kB[] = {0, 5};
    a = kA[vp_choose("fixed a", 0, 2)];
    b = kB[vp_choose("fixed b", 0, 1)];
    take = vp_choose("fixed taken", 0, 1);
  }
  moves = vp_choose("when", 0, 1);
  for (int i = 0; i < dur; ++i) series[i] = vp_double("value", -64, 64, G);
  f->stock(k, a, b, pq);
  if (k == 2 && vp_choose("third", 0, 1)) { f->x = Material::Create(f, 1, comp(1)); vp_reach("three materials"); }
  f->Build(NULL);
  IFac* g = new IFac(e.ctx);
  g->stock(1, 0x1p-21, 0, 1);  // a trace, still recorded
  g->Build(f);
  bool leaves = vp_choose("leaves", 0, 1);
  if (leaves) e.ctx->SchedDecom(g, 0);
  int fid = f->id(), gid = g->id();
  int st0 = k > 0 ? f->m[0]->state_id() : 0;
  e.ti.RunSim();
  e.rec.Flush();
  std::vector<Row> ex = e.mem.table("ExplicitInventory"), co = e.mem.table("ExplicitInventoryCompact");
  size_t nex = 0, nco = 0;
  for (size_t w = 0; w < want.size(); ++w) {
    for (int inv = 0; inv < 2; ++inv) {  // "stock", "second"
      const Exp& x = want[w];
      if (inv == 1 ? x.n < 2 : x.n < 1) continue;
      double tot = 0, nuc[3];
      for (int i = 0; i < 3; ++i) {
        nuc[i] = inv == 1 ? x.q[1] * frac(1, i) : x.q[0] * frac(0, i) + (x.n == 2 ? (x.q[1] + x.x) * frac(1, i) : 0);
        tot += nuc[i];
      }
      std::string name = inv ? "second" : "stock";
      const double tol = x.id == gid ? 1e-12 : 1e-6;
      double seen[3] = {0, 0, 0};
      int times[3] = {0, 0, 0};
      for (size_t r = 0; r < ex.size(); ++r) {
        if (ex[r].get<int>("AgentId") != x.id || ex[r].get<int>("Time") != x.t || ex[r].get<std::string>("InventoryName") != name) continue;
        ++nex;
        int id = ex[r].get<int>("NucId");
        for (int i = 0; i < 3; ++i) if (kNuc[i] == id) { seen[i] += ex[r].get<double>("Quantity"); times[i]++; }
        vp_assert(ex[r].get<std::string>("Units") == "kg", "inventories are in kilograms");
      }
      if (flags & 1) for (int i = 0; i < 3; ++i) {
        vp_assert(near(seen[i], nuc[i], tol), "the mass of each nuclide in each inventory is recorded");
        vp_assert(times[i] <= 1, "each nuclide of an inventory is recorded once");
      }
      int rows = 0;
      for (size_t r = 0; r < co.size(); ++r) {
        if (co[r].get<int>("AgentId") != x.id || co[r].get<int>("Time") != x.t || co[r].get<std::string>("InventoryName") != name) continue;
        ++nco; ++rows;
        vp_assert(near(co[r].get<double>("Quantity"), tot, tol), "the quantity of each inventory is recorded");
        CompMap c = co[r].get<CompMap>("Composition");
        for (int i = 0; i < 3; ++i) {
          double v = c.count(kNuc[i]) ? c[kNuc[i]] : 0;
          vp_assert((tot < 1e-3) | near(v * tot, nuc[i], 1e-4), "the composition of each inventory is recorded");
        }
      }
      vp_assert(rows == (flags & 2 ? 1 : 0), "each inventory is recorded once per step if asked for");
    }
  }
  vp_assert(nex == ex.size() && nco == co.size() && ((flags & 1) || ex.empty()), "nothing else is recorded as an inventory");
  if (flags) vp_reach("recorded");
  if (k == 2 && f->lost[0] > 0) vp_reach("moved");
  // recording changes nothing
  vp_assert(k == 0 || (near(f->m[0]->quantity(), a - f->lost[0], 1e-9) && (f->lost[0] > 0 || take == 0 || f->m[0]->state_id() == st0)), "recording an inventory leaves it as it is");
  if (f->x) vp_assert(f->x->quantity() == 1 && near(f->m[1]->quantity(), b, 1e-9), "recording an inventory leaves the rest of it as it is");
  // time series
  std::vector<Row> ts = e.mem.table("TimeSeriesLoad"), pw = e.mem.table("TimeSeriesPower");
  vp_assert(ts.size() == (size_t)(leaves ? 3 : 4) && heard.size() == ts.size() && heardok, "each value of a time series is recorded once and its listeners are told");
  int nf[2] = {0, 0};
  for (size_t r = 0; r < ts.size(); ++r) {
    int t = ts[r].get<int>("Time");
    vp_assert(t >= 0 && t < dur && ts[r].get<double>("Value") == series[t] && ts[r].get<std::string>("Units") == "kg", "time series have the value given at the time it was given");
    vp_assert(r >= heard.size() || heard[r] == ts[r].get<double>("Value"), "listeners get the value recorded");
    if (ts[r].get<int>("AgentId") == fid) nf[t]++; else vp_assert(ts[r].get<int>("AgentId") == gid, "time series name the agent");
  }
  vp_assert(nf[0] == 1 && nf[1] == 1 && pw.size() == 2 && pw[0].get<double>("Value") == series[0] + 1 && pw[0].get<std::string>("Units") == "MWe", "time series of an agent are complete");
  toolkit::TIME_SERIES_LISTENERS.clear();
  vp_reach("series");
}
#else
class AFac : public HFac {
 public:
  AFac(Context* c) : HFac(c) {}
  AFac(Context* c, std::string proto, std::string sp) : HFac(c) { prototype(proto); spec(sp); }
  virtual Agent* Clone() { AFac* m = new AFac(context()); m->InitFrom(this); return m; }
  using Agent::parent_id;
};
class AInst : public Institution {
 public:
  AInst(Context* c) : Institution(c) { Agent::prototype("ainst"); Agent::spec("ainst_impl"); }
  virtual Agent* Clone() { AInst* m = new AInst(context()); m->InitFrom(this); return m; }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
};
void vp_harness() {
  const bool th = vp_sym_tier();
  warn_limit = 0;
  Sim e;
  e.init(5);
  int what = vp_choose("what", 0, 1);
  if (what == 0) {  // the family
    const char* kProto[] = {"pa", "pb"};
    const char* kSpec[] = {"sa", "sa"};
    std::vector<AFac*> protos;
    for (int i = 0; i < 2; ++i) { protos.push_back(new AFac(e.ctx, kProto[i], kSpec[i])); e.ctx->AddPrototype(kProto[i], protos[i]); }
    int life = vp_int("lifetime", -1, 5);
    protos[0]->lifetime(life);
    struct A { Agent* a; int id, par, proto; bool in, inst; };
    std::vector<A> all;
    AInst* root = new AInst(e.ctx);
    root->Build(NULL);
    A r = {root, root->id(), -1, -1, true, true};
    all.push_back(r);
    const int N = th ? 6 : 5;
    int entries = 1, exits = 0;
    for (int k = 0; k < N; ++k) {
      bool build = k < 2 || vp_choose("build", 0, 1);
      if (build) {
        int par = vp_choose("parent", -1, (int)all.size() - 1);
        if (par >= 0 && !all[par].in) vp_assume(false);
        int p = k % 2;
        Agent* m = e.ctx->CreateAgent<Agent>(kProto[p]);
        vp_assert(m != protos[p] && m->prototype() == kProto[p] && m->spec() == kSpec[p] && m->id() != protos[p]->id() && m->enter_time() == -1, "an agent created is a copy of its prototype with its own id");
        m->Build(par < 0 ? NULL : all[par].a);
        ++entries;
        A n = {m, m->id(), par, p, true, false};
        all.push_back(n);
        if (p == 0) vp_assert(m->lifetime() == life, "an agent has the lifetime of its prototype");
        vp_assert(m->enter_time() == 0, "an agent entered when it was built");
        vp_reach("built");
      } else {
        int w = vp_choose("who", 0, (int)all.size() - 1);
        if (!all[w].in) vp_assume(false);
        all[w].a->Decommission();
        all[w].in = false;
        ++exits;
        for (size_t i = 0; i < all.size(); ++i) if (all[i].par == w) all[i].par = -1;
        vp_reach("left");
      }
      if (k < 1) continue;
      // family relations
      for (size_t i = 0; i < all.size(); ++i) {
        if (!all[i].in) continue;
        Agent* x = all[i].a;
        vp_assert(x->parent() == (all[i].par < 0 ? NULL : all[all[i].par].a), "the parent of an agent is the one it was built under, while it is there");
        vp_assert(x->parent_id() == (all[i].par < 0 ? -1 : all[all[i].par].id), "the id of the parent is that of the parent");
        size_t nc = 0;
        for (size_t j = 0; j < all.size(); ++j) {
          if (!all[j].in) continue;
          Agent* y = all[j].a;
          if (all[j].par == (int)i) { ++nc; vp_assert(x->children().count(y) == 1, "the children of an agent are those built under it"); }
          bool anc = false;
          for (int u = all[j].par; u >= 0; u = all[u].par) anc |= u == (int)i;
          vp_assert(x->AncestorOf(y) == anc, "ancestors are those on the way up");
          vp_assert(y->DecendentOf(x) == anc, "descendants are those on the way down");
          if (anc) vp_assert(x->InFamilyTree(y) && y->InFamilyTree(x), "ancestors and descendants are family");
          bool back = false;
          for (int u = all[i].par; u >= 0; u = all[u].par) back |= u == (int)j;
          vp_assert(x->InFamilyTree(y) == (anc || back || i == j), "others are not family");
          if (anc) vp_reach("ancestor");
        }
        vp_assert(x->children().size() == nc, "an agent has no other children");
      }
      int np[2] = {0, 0}, ni = 0, tr = 0;
      for (size_t i = 0; i < all.size(); ++i) if (all[i].in) { if (all[i].inst) ni++; else { np[all[i].proto]++; tr++; } }
      for (int p = 0; p < 2; ++p) vp_assert(e.ctx->n_prototypes(kProto[p]) == np[p], "the agents of a prototype are counted");
      vp_assert(e.ctx->n_specs("sa") == np[0] + np[1] && e.ctx->n_specs("ainst_impl") == ni, "the agents of a kind are counted");
      vp_assert((int)e.ctx->traders().size() == tr, "the traders are the facilities that are there");
    }
    e.rec.Flush();
    std::vector<Row> en = e.mem.table("AgentEntry"), exi = e.mem.table("AgentExit");
    vp_assert((int)en.size() == entries && (int)exi.size() == exits, "every entry and exit is recorded once");
    for (size_t i = 0; i < en.size() && i < all.size(); ++i)
      vp_assert(en[i].get<int>("AgentId") == all[i].id && en[i].get<int>("EnterTime") == 0 && en[i].get<std::string>("Prototype") == (all[i].inst ? "ainst" : kProto[all[i].proto]) && en[i].get<std::string>("Kind") == (all[i].inst ? "Inst" : "Facility"), "entries name the agent");
    vp_assert(attempt([&] { e.ctx->CreateAgent<Agent>("nobody"); }) == KEY, "unknown prototypes are refused");
    size_t tr = e.ctx->traders().size();
    vp_assert(attempt([&] { e.ctx->CreateAgent<Institution>("pa"); }) == CAST && e.ctx->traders().size() == tr, "prototypes of another kind are refused");
    if (all[1].in) {
      std::string out = all[1].a->PrintChildren();
      int names = 0, below = 0;
      for (size_t i = 0; i + 1 < out.size(); ++i) names += out[i] == 'p' && (out[i + 1] == 'a' || out[i + 1] == 'b');
      for (size_t j = 0; j < all.size(); ++j) if (all[j].in) for (int u = all[j].par; u >= 0; u = all[u].par) below += u == 1;
      vp_assert(names == below + 1, "the family printed is the whole family");
      vp_reach("printed");
    }
    Agent* self = NULL;
    for (size_t i = 0; i < all.size(); ++i) if (all[i].in) self = all[i].a;
    if (self) vp_assert(attempt([&] { self->Build(self); }) == KEY, "no agent is its own parent");
  } else {  // names
    const char* kN[] = {"one", "two", "unpackaged", "unrestricted"};
    bool pk[4] = {0, 0, 0, 0}, tu[4] = {0, 0, 0, 0}, re[4] = {0, 0, 0, 0}, pr[4] = {0, 0, 0, 0};
    double mx[4] = {0}; int tmx[4] = {0}; int rid[4] = {0}; int prid[4] = {0};
    int nspec = 0;
    const int N = 3;
    for (int k = 0; k < N; ++k) {
      int op = vp_choose("op", 0, 3), n = vp_choose("name", 0, 1);
      if (op == 0) {
        double x = vp_double("max", 1, 16, G);
        Out o = attempt([&] { e.ctx->AddPackage(kN[n], 0, x, "first"); });
        vp_assert(o == (pk[n] ? KEY : OK), "the name of a package is used once");
        if (o == OK) { pk[n] = true; mx[n] = x; } else vp_reach("taken");
      } else if (op == 1) {
        int x = vp_int("max", 1, 16);
        Out o = attempt([&] { e.ctx->AddTransportUnit(kN[n], 0, x, "first"); });
        vp_assert(o == (tu[n] ? KEY : OK), "the name of a transport unit is used once");
        if (o == OK) { tu[n] = true; tmx[n] = x; }
      } else if (op == 2) {
        CompMap c;
        c[kNuc[k]] = 1;
        Composition::Ptr cp = Composition::CreateFromMass(c);
        e.ctx->AddRecipe(kN[n], cp);
        re[n] = true; rid[n] = cp->id();
      } else {
        bool over = vp_choose("overwrite", 0, 1);
        AFac* p = new AFac(e.ctx, kN[n], n ? "sb" : "sa");
        Out o = attempt([&] { e.ctx->AddPrototype(kN[n], p, over); });
        vp_assert(o == (pr[n] && !over ? KEY : OK), "the name of a prototype is used once unless overwriting is asked for");
        if (o == OK) { pr[n] = true; prid[n] = p->id(); p->lifetime(7 + k); }
      }
      for (int i = 0; i < 4; ++i) {
        Out o = attempt([&] { Package::Ptr p = e.ctx->GetPackage(kN[i]); vp_assert(p->name() == kN[i] && (i == 2 || (p->fill_max() == mx[i] && p->fill_min() == 0)), "a package is the one of that name"); });
        vp_assert(o == (pk[i] || kN[i] == Package::unpackaged_name() ? OK : KEY), "unknown packages are refused");
        o = attempt([&] { TransportUnit::Ptr p = e.ctx->GetTransportUnit(kN[i]); vp_assert(p->name() == kN[i] && (i == 3 || (p->fill_max() == tmx[i] && p->fill_min() == 0)), "a transport unit is the one of that name"); });
        vp_assert(o == (tu[i] || kN[i] == TransportUnit::unrestricted_name() ? OK : KEY), "unknown transport units are refused");
        o = attempt([&] { vp_assert(e.ctx->GetRecipe(kN[i])->id() == rid[i], "a recipe is the last one of that name"); });
        vp_assert(o == (re[i] ? OK : KEY), "unknown recipes are refused");
        if (i < 2) {
          Out q = attempt([&] { Agent* m = e.ctx->CreateAgent<Agent>(kN[i]); vp_assert(m->prototype() == kN[i], "agents are made of the prototype of that name"); e.ctx->DelAgent(m); });
          vp_assert(q == (pr[i] ? OK : KEY), "unknown prototypes are refused");
        }
      }
    }
    e.rec.Flush();
    size_t npk = 0, ntu = 0;
    for (int i = 0; i < 2; ++i) { npk += pk[i]; ntu += tu[i]; }
    vp_assert(e.mem.table("Packages").size() == npk && e.mem.table("TransportUnits").size() == ntu, "packages and transport units are recorded once");
    std::set<std::string> vs;
    std::vector<Row> av = e.mem.table("AgentVersions");
    for (size_t i = 0; i < av.size(); ++i) vp_assert(vs.insert(av[i].get<std::string>("Spec")).second, "the version of each kind of agent is recorded once");
    vp_reach("names");
  }
}
#endif
