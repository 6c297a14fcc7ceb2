// C12: the phases of a time step. C13 (LIFE): how agents enter and leave.
#include "common.h"
#include "timer.h"
using namespace vph;
namespace {
struct Ev { int t; char k; int id; int par; };
std::vector<Ev> ev;
int kill_at, hold_until, snap_at, force_at, force_to;
int forced;
bool was_forced;
}  // namespace
static void lg(Agent* a, char k, int o = -1) { Ev e = {a->context()->time(), k, a->id(), o}; ev.push_back(e); }
class LFac : public HFac {
 public:
  LFac(Context* c) : HFac(c) {}
  virtual Agent* Clone() { LFac* m = new LFac(context()); m->InitFrom(this); return m; }
  virtual void EnterNotify() { HFac::EnterNotify(); lg(this, 'E'); }
  virtual void Tick() { lg(this, 'i'); }
  virtual void Tock() { lg(this, 'o'); }
  virtual void Decision() { lg(this, 'd'); }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() { lg(this, 'm'); return HFac::GetMatlRequests(); }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() { lg(this, 'p'); return HFac::GetProductRequests(); }
  virtual bool CheckDecommissionCondition() { return context()->time() >= hold_until; }
  virtual void Decommission() { lg(this, 'X'); HFac::Decommission(); }
};
class LInst : public Institution {
 public:
  LInst(Context* c) : Institution(c) { Agent::prototype("linst"); Agent::spec("linst_impl"); }
  virtual Agent* Clone() { LInst* m = new LInst(context()); m->InitFrom(this); return m; }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() { lg(this, 'i'); }
  virtual void Tock() {
    lg(this, 'o');
#ifdef LIFE
    if (context()->time() == force_at)
      for (std::set<Agent*>::const_iterator i = children().begin(); i != children().end(); ++i)
        if ((*i)->id() == forced) { (*i)->lifetime_force(force_to); was_forced = true; }
    Institution::Tock();
#endif
    if (context()->time() == kill_at) context()->KillSim();
    if (context()->time() == snap_at) context()->Snapshot();
  }
  virtual void Decision() { lg(this, 'd'); }
  virtual void BuildNotify(Agent* a) { lg(this, 'B', a->id()); }
  virtual void DecomNotify(Agent* a) { lg(this, 'D', a->id()); }
};
static int count(int t, char k, int id) {
  int n = 0;
  for (size_t i = 0; i < ev.size(); ++i) n += (ev[i].t == t) & (ev[i].k == k) & (ev[i].id == id);
  return n;
}
#ifndef LIFE
void vp_harness() {
  warn_limit = 0;
  ev.clear();
  hold_until = 0;
  snap_at = -1;
  Sim e;
  int dur = vp_choose("duration", 1, vp_sym_tier() ? 4 : 3);
  e.init(dur);
  LFac* proto = new LFac(e.ctx);
  e.ctx->AddPrototype("hfac", proto);
  LInst* inst = new LInst(e.ctx);
  inst->Build(NULL);
  LFac* f0 = new LFac(e.ctx);
  f0->Build(inst);
  int f0id = f0->id(), iid = inst->id();
  // agents without a parent come and go like any other
  bool orphan = vp_choose("without parents", 0, 1);
  LFac* f1 = NULL;
  int f1id = -1, pid = orphan ? -1 : iid, td1 = 99;
  if (orphan) { f1 = new LFac(e.ctx); f1->Build(NULL); f1id = f1->id(); vp_reach("without parent"); }
  if (orphan && !vp_sym_tier()) kill_at = -1; else kill_at = vp_int("kill", -1, 4);
  // two builds of the prototype and up to two schedulings of a decommission
  int nb = vp_choose("builds", orphan, orphan ? 1 : 2), nd = vp_choose("decommissions", orphan, orphan ? 1 : 2);
  int tb[2] = {-9, -9};
  size_t before = 0;
  for (int i = 0; i < nb; ++i) {
    int t = vp_int("build", -2, 5);
    Out o = attempt([&] { e.ctx->SchedBuild(orphan ? NULL : inst, "hfac", t); });
    if (t == -1) t = 1;
    vp_assert((o == OK) == (t > 0), "a build can be scheduled exactly for a later time step");
    if (o == OK) { tb[i] = t; vp_reach("build scheduled"); before++; } else vp_assert(o == VALUE, "scheduling in the past raises ValueError");
  }
  int td = 99;
  size_t dbefore = 0;
  for (int i = 0; i < nd; ++i) {
    int t = vp_int("decom", -2, 5);
    Out o = attempt([&] { e.ctx->SchedDecom(f0, t); });
    if (t == -1) t = 0;
    vp_assert((o == OK) == (t >= 0), "a decommission can be scheduled exactly for this or a later time step");
    if (o == OK) { td = t; dbefore++; vp_reach("decommission scheduled"); } else vp_assert(o == VALUE, "scheduling in the past raises ValueError");
  }
  if (orphan) {
    td1 = vp_int("decom orphan", 0, 5);
    e.ctx->SchedDecom(f1, td1);
    dbefore++;
  }
  ev.clear();
  e.ti.RunSim();
  e.rec.Flush();
  int end = dur - 1;
  if ((kill_at >= 0) & (kill_at < dur)) { end = kill_at; vp_reach("killed"); }
  // ids of what was built, in order
  std::vector<int> built;
  for (size_t i = 0; i < ev.size(); ++i) if (ev[i].k == 'E') built.push_back(ev[i].id);
  int k = 0;
  int nbuilt = 0;
  for (int i = 0; i < 2; ++i) nbuilt += (tb[i] >= 0) & (tb[i] <= end);
  vp_assert((int)built.size() == nbuilt, "exactly the builds scheduled within the run take place");
  // who is in the simulation at t, and what it is asked to do
  static const char kPh[] = {'i', 'm', 'p', 'o', 'd'};
  int rank[256] = {0};
  rank['E'] = 1; rank['B'] = 1; rank['i'] = 2; rank['m'] = 3; rank['p'] = 4; rank['o'] = 5; rank['d'] = 6; rank['D'] = 7; rank['X'] = 7;
  bool mono = true;
  for (size_t i = 1; i < ev.size(); ++i) mono &= (ev[i - 1].t < ev[i].t) | ((ev[i - 1].t == ev[i].t) & (rank[(int)ev[i - 1].k] <= rank[(int)ev[i].k]));
  vp_assert(mono, "each step builds, ticks, trades, tocks, decides and decommissions, in this order, and time does not run backwards");
  int lo = tb[0] <= tb[1] ? 0 : 1;
  for (int t = 0; t <= end; ++t) {
    for (int p = 0; p < 5; ++p) {
      bool trade = kPh[p] == 'm' || kPh[p] == 'p';
      vp_assert(count(t, kPh[p], iid) == (trade ? 0 : 1), "every agent in the simulation takes part in every phase of every step once");
      vp_assert(count(t, kPh[p], f0id) == (t <= td ? 1 : 0), "an agent takes part up to and including the step it is decommissioned in");
      if (orphan) vp_assert(count(t, kPh[p], f1id) == (t <= td1 ? 1 : 0), "an agent takes part up to and including the step it is decommissioned in");
      for (size_t b = 0; b < built.size(); ++b) {
        int when = nbuilt == 2 ? (b == 0 ? tb[lo] : tb[1 - lo]) : ((tb[0] >= 0) & (tb[0] <= end) ? tb[0] : tb[1]);
        vp_assert(count(t, kPh[p], built[b]) == (t >= when ? 1 : 0), "an agent takes part from the step it is built in");
        if (p == 0) vp_assert((count(t, 'E', built[b]) == (t == when ? 1 : 0)), "a build takes place in the step it is scheduled for");
      }
    }
    vp_assert(count(t, 'X', f0id) == (t == td ? 1 : 0), "a decommission takes place in the step it was last scheduled for");
    if (orphan) vp_assert(count(t, 'X', f1id) == (t == td1 ? 1 : 0), "a decommission takes place in the step it was last scheduled for");
    vp_assert(count(t, 'B', iid) == (orphan ? 0 : (tb[0] == t) + (tb[1] == t)) && count(t, 'D', iid) == (t == td ? 1 : 0), "parents are told of their children's builds and decommissions");
    if (t == td) vp_reach("decommissioned");
  }
  int late = 0;
  for (size_t i = 0; i < ev.size(); ++i) late += ev[i].t > end;
  vp_assert(late == 0, "nothing happens after the last step");
  // what is recorded
  std::vector<Row> fin = e.mem.table("Finish"), bs = e.mem.table("BuildSchedule"), ds = e.mem.table("DecomSchedule");
  vp_assert(fin.size() == 1 && fin[0].get<int>("EndTime") == end && fin[0].get<bool>("EarlyTerm") == ((kill_at >= 0) & (kill_at < dur)), "the end of the run is recorded");
  vp_assert(bs.size() == before && ds.size() == dbefore, "accepted schedulings, and only those, are recorded");
  for (size_t i = 0; i < bs.size(); ++i) {
    int w = i == 0 && tb[0] != -9 ? tb[0] : tb[1];
    vp_assert(bs[i].get<int>("BuildTime") == w && bs[i].get<int>("SchedTime") == 0 && bs[i].get<int>("ParentId") == pid && bs[i].get<std::string>("Prototype") == "hfac", "a build is recorded as scheduled");
  }
  if (orphan) {
    vp_assert(ds.back().get<int>("DecomTime") == td1 && ds.back().get<int>("AgentId") == f1id, "a decommission is recorded as scheduled");
    ds.pop_back();
  }
  if (ds.size()) vp_assert(ds.back().get<int>("DecomTime") == td && ds.back().get<int>("AgentId") == f0id && ds.back().get<int>("SchedTime") == 0, "a decommission is recorded as scheduled");
  std::vector<Row> sn = e.mem.table("Snapshots");
  vp_assert(sn.size() == 1 && sn[0].get<int>("Time") == end + 1, "the final state is saved");
  delete e.ctx;
}
#else
void vp_harness() {
  warn_limit = 0;
  ev.clear();
  kill_at = -1;
  Sim e;
  int dur = vp_choose("duration", 2, vp_sym_tier() ? 4 : 3);
  e.init(dur);
  LFac* proto = new LFac(e.ctx);
  int life = vp_int("lifetime", -1, 5), tb = vp_int("build", 1, 4);
  if (life == 0) return;
  proto->lifetime(life);
  e.ctx->AddPrototype("hfac", proto);
  hold_until = vp_int("hold", 0, 4);
  snap_at = vp_choose("snapshot", -1, 0);
  LInst* inst = new LInst(e.ctx);
  inst->Build(NULL);
  vp_assert(e.ctx->n_prototypes("linst") == 1 && e.ctx->n_specs("linst_impl") == 1, "agents in the simulation are counted by prototype and archetype");
  LFac* f0 = new LFac(e.ctx);
  int life0 = vp_int("lifetime0", -1, 4);
  if (life0 == 0) return;
  f0->lifetime(life0);
  vp_assert(e.ctx->n_prototypes("hfac") == 0, "agents in the simulation are counted by prototype and archetype");
  f0->Build(inst);
  vp_assert(e.ctx->n_prototypes("hfac") == 1 && e.ctx->n_specs("hfac_impl") == 1, "agents in the simulation are counted by prototype and archetype");
  vp_assert(f0->parent() == inst && f0->parent_id() == inst->id() && inst->children().count(f0) == 1 && inst->AncestorOf(f0) && f0->DecendentOf(inst), "an agent is its parent's child");
  vp_assert(f0->enter_time() == 0 && f0->exit_time() == (life0 == -1 ? -1 : life0 - 1), "an agent exits at the end of its lifetime, counting the step it enters in");
  vp_assert(attempt([&] { f0->lifetime(3); }) == VALUE && f0->lifetime() == life0, "a built agent's lifetime cannot be set");
  force_at = -1;
  was_forced = false;
  forced = f0->id();
  int fm = vp_choose("force", 0, 2);
  if (fm == 2) { force_at = vp_choose("when forced", 1, dur - 1); force_to = vp_int("forced", -1, 4); }
  if (fm == 1) {
    int nl = vp_int("forced", -1, 4);
    Out o = attempt([&] { f0->lifetime_force(nl); });
    vp_assert(o == OK, "a built agent's lifetime can be forced");
    life0 = nl == 0 ? 1 : nl;
    vp_assert(f0->lifetime() == life0, "a forced lifetime that has run out ends in this step");
    vp_reach("forced");
  }
  int f0id = f0->id(), iid = inst->id();
  e.ctx->SchedBuild(inst, "hfac", tb);
  int next = -1;
  e.ti.RunSim();
  e.rec.Flush();
  for (size_t i = 0; i < ev.size(); ++i) if (ev[i].k == 'E' && ev[i].id != f0id) next = ev[i].id;
  vp_assert((next >= 0) == (tb < dur), "a scheduled build takes place");
  int exits = 0, alive = 2;
  std::vector<Row> en = e.mem.table("AgentEntry"), ex = e.mem.table("AgentExit");
  for (int who = 0; who < 2; ++who) {
    int id = who ? next : f0id, enter = who ? tb : 0, lf = who ? life : life0;
    if (id < 0) continue;
    alive += who;
    // leaves in the first step at or after the end of its lifetime in which it agrees to
    int leave = -1;
    if (lf != -1) {
      int due = enter + lf - 1;
      if (due < hold_until) due = hold_until;
      if (due < dur) leave = due;
    }
    if (!who && force_at >= 0 && (leave == -1 || leave >= force_at)) {
      vp_assert(was_forced, "an agent is its parent's child until it leaves");
      lf = force_to == -1 ? -1 : force_to <= force_at ? force_at + 1 : force_to;
      leave = -1;
      if (lf != -1) {
        int due = lf - 1;
        if (due < hold_until) due = hold_until;
        if (due < dur) leave = due;
      }
      vp_reach("forced while running");
    }
    int xs = 0, when = -1, dn = 0, last = -1;
    for (size_t i = 0; i < ev.size(); ++i) {
      if (ev[i].k == 'X' && ev[i].id == id) { xs++; when = ev[i].t; }
      if (ev[i].k == 'D' && ev[i].par == id) { dn++; vp_assert(ev[i].id == iid && xs == 0, "the parent is told before its child leaves"); }
      if (ev[i].k == 'd' && ev[i].id == id) last = ev[i].t;
    }
    vp_assert(xs == (leave >= 0 ? 1 : 0) && when == leave, "an agent leaves in the first step at or after the end of its lifetime in which its conditions hold");
    vp_assert(dn == xs, "the parent is told when its child leaves");
    vp_assert(last == (leave >= 0 ? leave : dur - 1), "an agent takes part until it leaves");
    int rows = 0, erows = 0;
    for (size_t i = 0; i < ex.size(); ++i)
      if (ex[i].get<int>("AgentId") == id) { rows++; vp_assert(ex[i].get<int>("ExitTime") == leave, "an agent's exit is recorded with its time"); }
    for (size_t i = 0; i < en.size(); ++i)
      if (en[i].get<int>("AgentId") == id) {
        erows++;
        vp_assert(en[i].get<int>("EnterTime") == enter && en[i].get<int>("ParentId") == iid && en[i].get<std::string>("Kind") == "Facility" &&
                  en[i].get<std::string>("Spec") == "hfac_impl" && en[i].get<std::string>("Prototype") == "hfac" && (!who || en[i].get<int>("Lifetime") == lf),
                  "an agent's entry is recorded with its parent, kind, prototype, lifetime and time");
      }
    vp_assert(rows == xs && erows == 1, "every entry and exit is recorded once");
    if (xs) { exits++; vp_reach("left"); }
  }
  vp_assert(ex.size() == (size_t)exits && en.size() == (size_t)alive, "nothing but entries and exits is recorded as one");
  vp_assert(e.ctx->n_prototypes("hfac") == alive - 1 - exits && e.ctx->n_specs("hfac_impl") == alive - 1 - exits, "agents in the simulation are counted by prototype and archetype");
  vp_assert(inst->children().size() == (size_t)(alive - 1 - exits), "a parent keeps exactly the children that are in the simulation");
  std::vector<Row> sn = e.mem.table("Snapshots");
  vp_assert(sn.size() == (snap_at == 0 ? 2u : 1u), "a snapshot is taken when asked for, and at the end");
  if (snap_at == 0) vp_assert(sn[0].get<int>("Time") == 1, "a snapshot is taken at the start of the next step");
  inst->Decommission();
  vp_assert(e.ctx->n_prototypes("linst") == 0 && e.ctx->n_specs("linst_impl") == 0, "agents in the simulation are counted by prototype and archetype");
  delete e.ctx;
}
#endif
