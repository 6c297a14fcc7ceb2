// C22: a simulation restored from its records goes on exactly as the recorded one did.
#include "common.h"
#include "memq.h"
#include "sim_init.h"
#include "timer.h"
#include "dynamic_module.h"
#include "exchange_graph.h"
#include "greedy_solver.h"
using namespace vph;
static const int G = -4;
// the repository's own back door for agents that come from no shared library, and for the id counters
class SimInitTest {
 public:
  static void ctor(const std::string& s, AgentCtor* c) { DynamicModule::man_ctors_[s] = c; }
  static std::vector<int> ids(Context* c) {
    std::vector<int> v;
    v.push_back(Agent::next_id_); v.push_back(Resource::nextstate_id_); v.push_back(Resource::nextobj_id_);
    v.push_back(Composition::next_id_); v.push_back(Product::next_qualid_); v.push_back(c->trans_id_);
    return v;
  }
  static std::set<Agent*> agents(Context* c) { return c->agent_list_; }
};
namespace {
struct RState { std::string key; int qual; double q; int state, obj, dec; };
struct AState {
  int t, id, parent, enter, life, val;
  std::string proto, spec, kind;
  std::vector<RState> res;
};
std::vector<AState> lg;
int snap_at, late_build_at, late_build_for, late_decom_at, split_at, force_at, force_to, hold;
}  // namespace
static AState look(Agent* a);
class RFac : public Facility {
 public:
  RFac(Context* c) : Facility(c), val(0) {}
  virtual Agent* Clone() { RFac* m = new RFac(context()); m->InitFrom(this); return m; }
  void InitFrom(RFac* m) { Facility::InitFrom(m); val = m->val; }
  virtual void InitFrom(QueryableBackend* b) {
    Facility::InitFrom(b);
    QueryResult q = b->Query("Info", NULL);
    val = q.GetVal<int>("val");
  }
  virtual void Snapshot(DbInit di) { di.NewDatum("Info")->AddVal("val", val)->Record(); }
  virtual void InitInv(Inventories& inv) {
    for (Inventories::iterator i = inv.begin(); i != inv.end(); ++i)
      for (size_t k = 0; k < i->second.size(); ++k) (i->first == "m" ? ms : ps).push_back(i->second[k]);
  }
  virtual Inventories SnapshotInv() { Inventories v; v["m"] = ms; v["p"] = ps; return v; }
  virtual void Tick() {
    if (context()->time() == split_at && !ms.empty() && ms[0]->quantity() > 1) {
      CompMap c;
      c[922350000] = 1;
      Material::Ptr m = boost::dynamic_pointer_cast<Material>(ms[0]);
      m->Transmute(Composition::CreateFromMass(c));
      ms.push_back(m->ExtractQty(1));
      vp_reach("split");
    }
  }
  virtual void Tock() { val++; lg.push_back(look(this)); }
  int val;
  std::vector<Resource::Ptr> ms, ps;
};
class RInst : public Institution {
 public:
  RInst(Context* c) : Institution(c) {}
  virtual Agent* Clone() { RInst* m = new RInst(context()); m->InitFrom(this); return m; }
  virtual void InitFrom(QueryableBackend* b) { Institution::InitFrom(b); }
  void InitFrom(RInst* m) { Institution::InitFrom(m); }
  virtual void Snapshot(DbInit di) {}
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {
    int t = context()->time();
    if (t == force_at)
      for (std::set<Agent*>::const_iterator i = children().begin(); i != children().end(); ++i)
        if ((*i)->prototype() == "kept") (*i)->lifetime_force(force_to);
    Institution::Tock();
    if (t == snap_at - 1) context()->Snapshot();
    if (t == late_build_at) context()->SchedBuild(this, "fac", late_build_for);
    if (t == late_decom_at)
      for (std::set<Agent*>::const_iterator i = children().begin(); i != children().end(); ++i)
        if ((*i)->prototype() == "kept") context()->SchedDecom(*i, t + 1);
    lg.push_back(look(this));
  }
};
static Agent* mkfac(Context* c) { return new RFac(c); }
static Agent* mkinst(Context* c) { return new RInst(c); }
static AState look(Agent* a) {
  AState s;
  s.t = a->context()->time(); s.id = a->id(); s.parent = a->parent() ? a->parent()->id() : -1;
  s.enter = a->enter_time(); s.life = a->lifetime(); s.proto = a->prototype(); s.spec = a->spec(); s.kind = a->kind(); s.val = 0;
  RFac* f = dynamic_cast<RFac*>(a);
  if (f) {
    s.val = f->val;
    for (int w = 0; w < 2; ++w) {
      std::vector<Resource::Ptr>& v = w ? f->ps : f->ms;
      for (size_t i = 0; i < v.size(); ++i) {
        RState r;
        r.key = v[i]->type() + "/" + v[i]->package_name() + "/" + v[i]->units();
        r.qual = v[i]->qual_id(); r.q = v[i]->quantity(); r.state = v[i]->state_id(); r.obj = v[i]->obj_id();
        Material::Ptr mt = boost::dynamic_pointer_cast<Material>(v[i]);
        r.dec = mt ? mt->prev_decay_time() : 0;
        s.res.push_back(r);
      }
    }
  }
  return s;
}
static void same(const AState& x, const AState& y, bool ids) {
  vp_assert(x.parent == y.parent, "an agent has the same parent");
  vp_assert((x.enter == y.enter) & (x.life == y.life), "an agent has the same entry time and lifetime");
  vp_assert(x.proto == y.proto && x.spec == y.spec && x.kind == y.kind, "an agent has the same prototype, spec and kind");
  vp_assert(x.val == y.val, "an agent has the same state");
  vp_assert(x.res.size() == y.res.size(), "an agent holds as many resources");
  for (size_t i = 0; i < x.res.size() && i < y.res.size(); ++i) {
    vp_assert(x.res[i].key == y.res[i].key, "a resource has the same type, package and units");
    vp_assert((x.res[i].q == y.res[i].q) & (x.res[i].qual == y.res[i].qual), "a resource has the same quantity and quality");
    vp_assert(x.res[i].dec == y.res[i].dec, "a material has decayed up to the same time");
    if (ids) vp_assert((x.res[i].state == y.res[i].state) & (x.res[i].obj == y.res[i].obj), "a resource has the same ids");
  }
}
static const AState* find(const std::vector<AState>& v, int t, int id) {
  for (size_t i = 0; i < v.size(); ++i) if ((v[i].t == t) & (v[i].id == id)) return &v[i];
  return NULL;
}

// two requests compete for one supply
static void solver_same(ExchangeSolver* sv, int first) {
  ExchangeGraph g;
  ExchangeNode::Ptr r[2], b[2];
  ExchangeNodeGroup::Ptr bg(new ExchangeNodeGroup());
  for (int i = 0; i < 2; ++i) {
    r[i] = ExchangeNode::Ptr(new ExchangeNode(4, false, i ? "c1" : "c0", i));
    b[i] = ExchangeNode::Ptr(new ExchangeNode(3, false, "c", i + 2));
    RequestGroup::Ptr rg(new RequestGroup(4));
    rg->AddExchangeNode(r[i]);
    rg->AddCapacity(4);
    g.AddRequestGroup(rg);
    bg->AddExchangeNode(b[i]);
  }
  bg->AddCapacity(3);
  g.AddSupplyGroup(bg);
  for (int i = 0; i < 2; ++i) {
    Arc a(r[i], b[i]);
    a.pref(1);
    r[i]->prefs[a] = 1;
    r[i]->unit_capacities[a].push_back(1);
    b[i]->unit_capacities[a].push_back(1);
    g.AddArc(a);
  }
  sv->Solve(&g);
  vp_assert(g.matches().size() == 1 && g.matches()[0].first.unode() == r[first], "the solver serves commodities in the recorded order");
}

void vp_harness() {
  warn_limit = 0;
  lg.clear();
  SimInitTest::ctor(":r:fac", mkfac);
  SimInitTest::ctor(":r:inst", mkinst);
  int big = vp_sym_tier(), dur = big ? 4 : 3;
  // what the run does
  int scene = vp_choose("scene", 0, 5);
  snap_at = vp_choose("snapshot", 0, dur - 1);
  late_build_at = late_decom_at = split_at = force_at = -9;
  late_build_for = force_to = 0;
  Sim e;
  int year = vp_int("year", 2010, 2015), month = vp_int("month", 1, 12);
  SimInfo si0(dur, year, month, "handle");
  si0.seed = vp_int("seed", 0, 99);
  si0.dt = vp_int("step", 1, 1000);
  int how = scene == 0 ? vp_choose("settings", 0, 1) : scene & 1;
  si0.explicit_inventory = !how;
  si0.explicit_inventory_compact = how;
  si0.decay = how ? "never" : "manual";
  // tolerances a user chose
  cy_eps = si0.eps = how ? 1. / 512 : 1e-6;
  cy_eps_rsrc = si0.eps_rsrc = how ? 1. / 256 : 1e-6;
  e.ctx->NewDatum("SolverInfo")->AddVal("Solver", std::string("greedy"))->AddVal("ExclusiveOrders", how == 0)->Record();
  e.ctx->NewDatum("GreedySolverInfo")->AddVal("Preconditioner", std::string("greedy"))->Record();
  e.ctx->NewDatum("CommodPriority")->AddVal("Commodity", std::string("c0"))->AddVal("SolutionPriority", how ? 2. : 1.)->Record();
  e.ctx->NewDatum("CommodPriority")->AddVal("Commodity", std::string("c1"))->AddVal("SolutionPriority", how ? 1. : 2.)->Record();
  e.ctx->InitSim(si0);
  CompMap cm;
  cm[922350000] = 1; cm[922380000] = 3;
  e.ctx->AddRecipe("rec", Composition::CreateFromMass(cm));
  e.ctx->AddPackage("pkg", 1, 8, "first");
  e.ctx->AddTransportUnit("tu", 1, 2, "first");
  RFac* proto = new RFac(e.ctx);
  proto->spec(":r:fac"); proto->prototype("fac"); proto->val = vp_int("value", 0, 7);
  if (scene == 1) proto->lifetime(vp_int("lifetime", 1, dur));
  e.ctx->AddPrototype("fac", proto);
  RInst* inst = new RInst(e.ctx);
  inst->spec(":r:inst"); inst->prototype("inst");
  inst->Build(NULL);
  RFac* f = new RFac(e.ctx);
  f->spec(":r:fac"); f->prototype("kept"); f->val = 3;
  f->Build(inst);
  double q = vp_double("quantity", 0, 8, G);
  Material::Ptr m = Material::Create(f, q, e.ctx->GetRecipe("rec"));
  if ((scene == 0 || scene == 4 || vp_sym_tier()) && (q >= 1) & vp_choose("packaged", 0, 1)) { m->ChangePackage("pkg"); vp_reach("packaged"); }
  f->ms.push_back(m);
  double amount = vp_double("amount", 0, 8, G);
  f->ps.push_back(Product::Create(f, amount, "bananas"));
  RInst* other = NULL;
  if (scene <= 1) {  // builds, and lifetimes of what is built
    int n = scene ? 1 : vp_choose("builds", 1, 2);
    for (int i = 0; i < n; ++i) e.ctx->SchedBuild(inst, "fac", vp_int("build", 1, dur));
  } else if (scene == 2) {  // a decommission, perhaps rescheduled
    e.ctx->SchedDecom(f, vp_int("decommission", 0, dur));
    if (vp_choose("again", 0, 1)) e.ctx->SchedDecom(f, vp_int("decommission", 0, dur));
  } else if (scene == 3) {  // things scheduled during the run
    late_build_at = vp_int("scheduled at", 0, dur - 1);
    late_build_for = vp_int("for", 1, dur);
    vp_assume(late_build_for > late_build_at);
    late_decom_at = vp_int("decommission ordered", -1, dur - 1);
  } else if (scene == 4) {  // resources change, lifetime forced
    split_at = vp_int("split", 0, dur);
    force_at = vp_int("forced at", -1, dur);
    force_to = vp_int("forced to", 1, dur + 1);
  } else {  // an institution leaves its facility behind
    other = new RInst(e.ctx);
    other->spec(":r:inst"); other->prototype("inst2");
    other->Build(NULL);
    RFac* g = new RFac(e.ctx);
    g->spec(":r:fac"); g->prototype("orphan");
    g->Build(other);
    e.ctx->SchedDecom(other, vp_int("decommission", 0, dur));
  }
  MemQ db;
  std::vector<AState> at;
  if (snap_at == 0) {
    SimInit::Snapshot(e.ctx);
    e.rec.Flush();
    db.rows = e.mem.rows;
    std::set<Agent*> l = SimInitTest::agents(e.ctx);
    for (std::set<Agent*>::iterator i = l.begin(); i != l.end(); ++i) if ((*i)->enter_time() != -1) at.push_back(look(*i));
  }
  std::vector<int> ids = SimInitTest::ids(e.ctx);
  e.ti.RunSim();
  e.rec.Flush();
  std::vector<AState> orig;
  for (size_t i = 0; i < lg.size(); ++i) if (lg[i].t >= snap_at) orig.push_back(lg[i]);
  if (snap_at) {
    db.rows = e.mem.rows;
    std::vector<Row> nx = e.mem.table("NextIds");
    static const char* ob[] = {"Agent", "ResourceState", "ResourceObj", "Composition", "Product", "Transaction"};
    for (int k = 0; k < 6; ++k)
      for (size_t i = 0; i < nx.size(); ++i)
        if (nx[i].get<int>("Time") == snap_at && nx[i].get<std::string>("Object") == ob[k]) ids[k] = nx[i].get<int>("NextId");
  }
  // records of another simulation in the same database
  boost::uuids::uuid other_id = {};
  size_t nrows = db.rows.size();
  for (size_t i = 0; i < nrows; ++i) {
    std::string t = db.rows[i].table;
    if (t != "Info" && t != "AgentEntry" && t != "BuildSchedule" && t != "NextIds" && t != "Recipes") continue;
    Row r = db.rows[i];
    r.vals[0].second = other_id;
    db.rows.push_back(r);
  }
  lg.clear();
  cy_eps = cy_eps_rsrc = 1e-6;  // as in a new process
  SimInit si;
  Recorder* rec2;
  if (snap_at == 0) { si.Init(&e.rec, &db); rec2 = &e.rec; } else { si.Restart(&db, e.rec.sim_id(), snap_at); rec2 = si.recorder(); }
  Context* c = si.context();
  vp_assert(c->time() == snap_at, "the restored simulation is at the time of the snapshot");
  SimInfo s1 = c->sim_info();
  vp_assert(s1.duration == dur && s1.handle == "handle" && s1.decay == si0.decay, "duration, handle and decay mode are restored");
  vp_assert((s1.y0 == si0.y0) & (s1.m0 == si0.m0) & (s1.dt == si0.dt) & (s1.seed == si0.seed) & (s1.stride == si0.stride), "start, step length and seed are restored");
  vp_assert(s1.eps == si0.eps && s1.eps_rsrc == si0.eps_rsrc && eps() == si0.eps && eps_rsrc() == si0.eps_rsrc, "tolerances are restored and used");
  vp_assert(s1.explicit_inventory == si0.explicit_inventory && s1.explicit_inventory_compact == si0.explicit_inventory_compact, "what is recorded of inventories is restored");
  solver_same(c->solver(), how ? 1 : 0);
  vp_assert(snap_at == 0 || (s1.parent_sim == e.rec.sim_id() && s1.parent_type == "restart" && s1.branch_time == snap_at && rec2->sim_id() != e.rec.sim_id()), "a restarted simulation names its parent");
  vp_assert(SimInitTest::ids(c) == ids, "ids go on where they were");
  CompMap got = c->GetRecipe("rec")->mass();
  vp_assert(near(got[922350000], .25, 1e-12) && near(got[922380000], .75, 1e-12) && got.size() == 2, "recipes are restored");
  Package::Ptr pk = c->GetPackage("pkg");
  vp_assert(pk->fill_min() == 1 && pk->fill_max() == 8 && pk->strategy() == "first", "packages are restored");
  TransportUnit::Ptr tu = c->GetTransportUnit("tu");
  vp_assert(tu->fill_min() == 1 && tu->fill_max() == 2 && tu->strategy() == "first", "transport units are restored");
  if (snap_at == 0) {
    std::set<Agent*> l = SimInitTest::agents(c);
    int n = 0;
    for (std::set<Agent*>::iterator i = l.begin(); i != l.end(); ++i) {
      if ((*i)->enter_time() == -1) continue;
      ++n;
      const AState* w = find(at, 0, (*i)->id());
      vp_assert(w != NULL, "no agent appears that was not there");
      if (w) same(*w, look(*i), true);
    }
    vp_assert(n == (int)at.size(), "every agent that was there is restored");
  }
  si.timer()->RunSim();
  vp_reach(snap_at ? "restarted" : "initialised");
  for (size_t i = 0; i < orig.size(); ++i) {
    const AState* w = find(lg, orig[i].t, orig[i].id);
    vp_assert(w != NULL, "every agent of the recorded run is there at the same times in the restored run");
    if (w) same(orig[i], *w, orig[i].t == snap_at && split_at != snap_at);
  }
  vp_assert(lg.size() == orig.size(), "no agent is there in the restored run that was not in the recorded one");
}
