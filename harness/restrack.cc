// C14: the recorded history of tracked resources.
#include "common.h"
using namespace vph;
static const int G = -24;
#ifdef MAT
typedef Material R;
#else
typedef Product R;
#endif
struct Exp { int obj; double q; int p1, p2; std::string pkg; int state, qual, t; };
static std::vector<Exp> exp_;
static Context* ctx_;
static Composition::Ptr ca, cb;
static void want(Resource::Ptr r, int p1, int p2, std::string pkg) {
  Exp e = {r->obj_id(), r->quantity(), p1, p2, pkg, r->state_id(), r->qual_id(), ctx_->time()};
  exp_.push_back(e);
}
static R::Ptr make(Agent* a, double q, bool other = false) {
#ifdef MAT
  return R::Create(a, q, other ? cb : ca);
#else
  return R::Create(a, q, "stuff");
#endif
}
static R::Ptr extract(R::Ptr r, double q) { return boost::dynamic_pointer_cast<R>(r->ExtractRes(q)); }

void vp_harness() {
  warn_limit = 0;
  CompMap v; v[922350000] = 1;
  ca = Composition::CreateFromMass(v);
  v[922380000] = 3;
  cb = Composition::CreateFromMass(v);
  exp_.clear();
  Sim e;
  ctx_ = e.ctx;
  SimInfo si(10);
  si.branch_time = 3;  // resources come at time 3, the rest happens at time 5
  e.ctx->InitSim(si);
  HFac* fac = new HFac(e.ctx);
  e.ctx->AddPackage("box", 0, 1024, "first");
  double total = 0;
  std::vector<R::Ptr> pool;
  size_t created = 0;
  double x0 = vp_double("q0", 0, 256, G), x1 = vp_double("q1", 0, 256, G);
  vp_assume((x0 > eps_rsrc()) & (x1 > eps_rsrc()));
  pool.push_back(make(fac, x0));
  want(pool[0], 0, 0, "unpackaged");
  pool.push_back(make(fac, x1, true));
  want(pool[1], 0, 0, "unpackaged");
  total = x0 + x1;
  created = 2;
  si.branch_time = 5;
  e.ctx->InitSim(si);
#ifdef MAT
  int steps = vp_sym_tier() ? 3 : 2;
  bool split_first = false;
#else
  int steps = vp_sym_tier() ? 4 : 3;
  bool split_first = !vp_sym_tier();
#endif
  for (int k = 0; k < steps; ++k) {
    // quick: the first operation splits or merges, so that three reach the interesting histories
    int op = vp_choose("op", 0, split_first && k == 0 ? 2 : 5);
    int i = vp_choose("which", 0, split_first && k == 0 ? 0 : (int)pool.size() - 1);
    R::Ptr r = pool[i];
    int st = r->state_id();
    if (op <= 1) {
      double x = vp_double("take", 0, 256, G);
      if (x > r->quantity()) continue;
      std::string pk = op ? "box" : "unpackaged", own = r->package_name();
      R::Ptr n = op ? boost::dynamic_pointer_cast<R>(r->PackageExtract(x, "box")) : extract(r, x);
#ifndef MAT
      if (!op) pk = own;
#endif
      want(n, st, 0, pk);
      vp_assert(n->state_id() != st && n->obj_id() != r->obj_id(), "what is split off is an object of its own");
      if (r->quantity() > eps_rsrc()) { want(r, st, 0, own); vp_assert(r->state_id() != st, "a changed resource gets a new state"); }
      else vp_reach("used up");
      pool.push_back(n);
      vp_reach(op ? "packaged part" : "extracted");
    } else if (op == 2) {
      int j = vp_choose("other", 0, (int)pool.size() - 1);
      if (i == j) continue;
      int s2 = pool[j]->state_id();
      std::string own = r->package_name();
      r->Absorb(pool[j]);
      want(r, st, s2, own);
      vp_reach("absorbed");
      pool.erase(pool.begin() + j);
    } else if (op == 3) {
      std::string to = vp_choose("package", 0, 1) ? "box" : "unpackaged";
      bool same = to == r->package_name();
      Out o = attempt([&] { r->ChangePackage(to); });
      if (o != OK) { vp_assert(o == VALUE && r->state_id() == st, "a refused change leaves the state alone"); continue; }
      if (!same) { want(r, st, 0, to); vp_assert(r->state_id() != st, "a changed resource gets a new state"); vp_reach("repackaged"); }
      else vp_assert(r->state_id() == st, "an unchanged resource keeps its state");
    } else if (op == 4) {
      // a clone, and what is made of it, is never recorded
      double x = vp_double("take", 0, 256, G);
      R::Ptr c = boost::dynamic_pointer_cast<R>(r->Clone());
      if (x > c->quantity()) continue;
      R::Ptr p = extract(c, x);
      c->Absorb(p);
      c->ChangePackage("box");
      c->PackageExtract(0, "box");
      vp_assert(r->state_id() == st, "work on a clone leaves the original alone");
      vp_reach("clone");
    } else {
#ifdef MAT
      r->Transmute(cb);
      want(r, st, 0, r->package_name());
      vp_assert(r->state_id() != st, "a changed resource gets a new state");
      vp_reach("transmuted");
#else
      R::Ptr u = R::CreateUntracked(3, "stuff");
      extract(u, 1);
      int us = u->state_id();
      r->Absorb(u);
      want(r, st, us, r->package_name());
      total += 2;
#endif
    }
  }
  e.rec.Flush();
  std::vector<Row> rows = e.mem.table("Resources"), cr = e.mem.table("ResCreators"), co = e.mem.table("Compositions");
  vp_assert(rows.size() == exp_.size(), "every change of a tracked resource is recorded once, and nothing else");
  std::set<int> ids;
  for (size_t i = 0; i < exp_.size(); ++i) {
    const Exp& x = exp_[i];
    size_t at = 0;
    while (at < rows.size() && rows[at].get<int>("ResourceId") != x.state) ++at;
    if (at == rows.size()) { vp_assert(false, "every state of a tracked resource is recorded"); break; }
    const Row& w = rows[at];
    int id = w.get<int>("ResourceId");
    vp_assert(ids.insert(id).second, "every recorded state has an id of its own");
    vp_assert(id == x.state && w.get<int>("ObjId") == x.obj, "a record carries the state and object id");
    vp_assert(w.get<double>("Quantity") == x.q, "a record carries the quantity");
    vp_assert(w.get<int>("Parent1") == x.p1 && w.get<int>("Parent2") == x.p2, "a record names the states it came from");
    vp_assert(w.get<std::string>("PackageName") == x.pkg, "a record names the package");
    vp_assert(w.get<int>("QualId") == x.qual && w.get<int>("TimeCreated") == x.t && w.get<std::string>("Units") == (w.get<std::string>("Type") == "Material" ? "kg" : "NONE"), "a record carries quality, time and units");
    bool known = x.p1 == 0;
    for (size_t k = 0; k < at; ++k) known |= rows[k].get<int>("ResourceId") == x.p1;
    vp_assert(known, "a state's parents were recorded before it");
#ifdef MAT
    double f = 0;
    for (size_t k = 0; k < co.size(); ++k) if (co[k].get<int>("QualId") == x.qual) f += co[k].get<double>("MassFrac");
    vp_assert((x.q <= eps_rsrc()) | near(f, 1, 1e-9), "the composition of a recorded material is recorded once, as mass fractions");
#endif
  }
  vp_assert(cr.size() == created, "every created resource, and nothing else, has a recorded creator");
  for (size_t i = 0; i < cr.size(); ++i) vp_assert(cr[i].get<int>("AgentId") == fac->id() && cr[i].get<int>("ResourceId") == exp_[i].state, "the creator is recorded");
  // the states no later state came from are what exists now
  double leaves = 0;
  for (size_t i = 0; i < rows.size() && i < exp_.size(); ++i) {
    bool parent = false;
    for (size_t k = 0; k < rows.size(); ++k) parent |= rows[k].get<int>("Parent1") == exp_[i].state || rows[k].get<int>("Parent2") == exp_[i].state;
    if (!parent) leaves += exp_[i].q;
  }
  vp_assert(near(leaves, total, steps * eps_rsrc()), "the recorded history accounts for everything that was created");
  pool.clear();
  delete e.ctx;
}
