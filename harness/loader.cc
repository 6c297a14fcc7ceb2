// C32: the simulation that starts is the one the input file describes.
#include <stdlib.h>
#include <limits>
#include <boost/filesystem.hpp>
#include <libxml++/libxml++.h>
#include "infile.h"
#include "blob.h"
#include "cyc_std.h"
#include "env.h"
#include "exchange_graph.h"
#include "exchange_solver.h"
#include "greedy_preconditioner.h"
#include "greedy_solver.h"
#include "pyne.h"
#include "sim_init.h"
#include "timer.h"
#include "dynamic_module.h"
#include "toolkit/infile_converters.h"
// the conversions of digits the loaders use
static double vp_strtod(const char* s, char** e) { return s[0] == '@' ? dval.at(atoi(s + 1)) : strtod(s, e); }
static long vp_strtol(const char* s, char** e, int b) { return s[0] == '@' ? (long)ival.at(atoi(s + 1)) : strtol(s, e, b); }
static int vp_atoi(const char* s) { return s[0] == '@' ? ival.at((atoi)(s + 1)) : (atoi)(s); }
static double vp_atof(const char* s) { return vp_strtod(s, NULL); }
namespace std {
static double vp_stod(const string& s, size_t* = NULL) { return ::vp_strtod(s.c_str(), NULL); }
static int vp_stoi(const string& s, size_t* = NULL, int b = 10) { return (int)::vp_strtol(s.c_str(), NULL, b); }
static long vp_stol(const string& s, size_t* = NULL, int b = 10) { return ::vp_strtol(s.c_str(), NULL, b); }
using ::vp_strtod; using ::vp_strtol; using ::vp_atoi; using ::vp_atof;
}  // namespace std
#define lexical_cast vp_lexical_cast
#define strtod vp_strtod
#define strtol vp_strtol
#define atoi vp_atoi
#define atof vp_atof
#define stod vp_stod
#define stoi vp_stoi
#define stol vp_stol
#include "xml_file_loader.cc"
#include "xml_flat_loader.cc"
#undef lexical_cast
#undef strtod
#undef strtol
#undef atoi
#undef atof
#undef stod
#undef stoi
#undef stol
static const char* kAnyDocument =
    "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"any\"/></start><define name=\"any\"><element><anyName/>"
    "<zeroOrMore><choice><text/><ref name=\"any\"/></choice></zeroOrMore></element></define></grammar>";
// the shape of a document is checked by libxml2 against a schema; here it is one that allows them all
class Nested : public XMLFileLoader {
 public:
  Nested(Recorder* r, QueryableBackend* b, const std::string& doc) : XMLFileLoader(r, b, "", doc, "xml") {}
  Context* context() { return ctx_; }
 protected:
  virtual std::string master_schema() { return kAnyDocument; }
};
class Flat : public XMLFlatLoader {
 public:
  Flat(Recorder* r, QueryableBackend* b, const std::string& doc) : XMLFlatLoader(r, b, "", doc, "xml") {}
 protected:
  virtual std::string master_schema() { return kAnyDocument; }
};
class SimInitTest {
 public:
  static void ctor(const std::string& s, AgentCtor* c) { DynamicModule::man_ctors_[s] = c; }
  static std::set<Agent*> agents(Context* c) { return c->agent_list_; }
};
// answers from what the recorder has been given so far
class LiveQ : public MemQ {
 public:
  LiveQ(MemBack* m) : m_(m) {}
  struct Swap { std::vector<Row>&a, &b; Swap(std::vector<Row>& x, std::vector<Row>& y) : a(x), b(y) { a.swap(b); } ~Swap() { a.swap(b); } };
  virtual QueryResult Query(std::string t, std::vector<Cond>* c) { Swap s(rows, m_->rows); return MemQ::Query(t, c); }
  virtual std::set<std::string> Tables() { Swap s(rows, m_->rows); return MemQ::Tables(); }
 private:
  MemBack* m_;
};
// agents of three kinds with a number of their own
static int told = 0;  // children parents were told of
template <class B> class Ag : public B {
 public:
  Ag(Context* c) : B(c), val(-77) {}
  virtual Agent* Clone() { Ag* m = new Ag(this->context()); m->InitFrom(this); return m; }
  void InitFrom(Ag* m) { B::InitFrom(m); val = m->val; }
  virtual void InfileToDb(InfileTree* t, DbInit di) {
    B::InfileToDb(t, di);
    InfileTree* s = t->SubTree("config/*");
    std::string x = s->GetString("val");
    di.NewDatum("Info")->AddVal("val", boost::vp_lexical_cast<int>(x.c_str()))->Record();
  }
  virtual void InitFrom(QueryableBackend* b) { B::InitFrom(b); QueryResult q = b->Query("Info", NULL); val = q.template GetVal<int>("val"); }
  virtual void Snapshot(DbInit di) { di.NewDatum("Info")->AddVal("val", val)->Record(); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
  virtual void BuildNotify(Agent* c) { told++; vp_assert(c->parent() == this, "a parent is told of its own children"); }
  int val;
};
typedef Ag<Facility> LFac;
typedef Ag<Institution> LInst;
typedef Ag<Region> LReg;
static Agent* mkfac(Context* c) { return new LFac(c); }
static Agent* mkinst(Context* c) { return new LInst(c); }
static Agent* mkreg(Context* c) { return new LReg(c); }
static int value(Agent* a) {
  if (LFac* f = dynamic_cast<LFac*>(a)) return f->val;
  if (LInst* f = dynamic_cast<LInst*>(a)) return f->val;
  if (LReg* f = dynamic_cast<LReg*>(a)) return f->val;
  return -1000;
}
static int irange(const char* n, int lo, int hi, std::string* text) {
  int x = vp_int(n, lo, hi);
  ival.push_back(x);
  dval.push_back(x);
  *text = "@" + str((int)ival.size() - 1);
  return x;
}
static double drange(const char* n, double lo, double hi, int g, std::string* text) {
  double x = vp_double(n, lo, hi, g);
  ival.push_back(0);
  dval.push_back(x);
  *text = "@" + str((int)dval.size() - 1);
  return x;
}
struct Want { int val; std::string name, spec; int life; };
static std::vector<Want> want;
static std::string spec(const std::string& lib, const std::string& name, const std::string& alias) {
  return el("spec", el("path", "x") + el("lib", lib) + el("name", name) + (alias.empty() ? "" : el("alias", alias)));
}
// the name, lifetime and configuration of a prototype
static std::string proto(const std::string& name, const std::string& alias, const std::string& sp, int life) {
  Want w;
  std::string v;
  w.name = name; w.spec = sp; w.life = life;
  w.val = irange("value", -9, 9, &v);
  want.push_back(w);
  return el("name", name) + (life >= 0 ? el("lifetime", str(life)) : "") + el("config", el(alias, el("val", v)));
}
static std::string specs() {
  return el("archetypes", spec("r", "reg", "") + spec("r", "inst", "") + spec("r", "fac", "") + spec("r", "fac2", "other") + spec("s", "fac", "third"));
}
static void expect_proto(Context* c, const Want& w) {
  Agent* a = c->CreateAgent<Agent>(w.name);
  vp_assert(value(a) == w.val, "a prototype has the configuration the file gives it");
  vp_assert(a->lifetime() == w.life, "a prototype has the lifetime the file gives it");
  vp_assert(a->spec() == w.spec && a->prototype() == w.name, "a prototype is of the archetype the file names");
}
static const Want* wanted(const std::string& n) {
  for (size_t i = 0; i < want.size(); ++i) if (want[i].name == n) return &want[i];
  return NULL;
}
typedef std::map<std::pair<std::string, std::string>, int> Tree;  // (parent's prototype, prototype) -> how many
static void expect_tree(Context* c, Tree exp) {
  std::set<Agent*> l = SimInitTest::agents(c);
  Tree got;
  for (std::set<Agent*>::iterator i = l.begin(); i != l.end(); ++i) {
    Agent* a = *i;
    if (a->enter_time() == -1) continue;
    got[std::make_pair(a->parent() ? a->parent()->prototype() : std::string(""), a->prototype())]++;
    const Want* w = wanted(a->prototype());
    vp_assert(w != NULL, "only agents of the file's prototypes are built");
    if (!w) continue;
    vp_assert(value(a) == w->val && a->lifetime() == w->life && a->spec() == w->spec, "an initial agent is what its prototype says");
    vp_assert(a->enter_time() == 0, "initial agents enter at the start");
    bool in = a->parent() == NULL || a->parent()->children().count(a) == 1;
    vp_assert(in, "an initial agent is a child of its parent");
  }
  int kids = 0;
  for (Tree::iterator i = exp.begin(); i != exp.end(); ++i) if (!i->first.first.empty()) kids += i->second;
  vp_assert(told == kids, "parents are told of their initial children");
  for (Tree::iterator i = exp.begin(); i != exp.end(); ++i)
    vp_assert(got[i->first] == i->second, "as many agents of a prototype as the file lists are under each parent");
  for (Tree::iterator i = got.begin(); i != got.end(); ++i)
    vp_assert(i->second == 0 || exp[i->first] > 0, "no agent is where the file lists none");
}
static int served(ExchangeSolver* sv, const std::vector<std::string>& commods) {
  ExchangeGraph g;
  std::vector<ExchangeNode::Ptr> r;
  ExchangeNodeGroup::Ptr bg(new ExchangeNodeGroup());
  int n = commods.size();
  for (int i = 0; i < n; ++i) {
    ExchangeNode::Ptr u(new ExchangeNode(4, false, commods[i], i)), v(new ExchangeNode(3, false, commods[i], i + n));
    RequestGroup::Ptr rg(new RequestGroup(4));
    rg->AddExchangeNode(u);
    rg->AddCapacity(4);
    g.AddRequestGroup(rg);
    bg->AddExchangeNode(v);
    Arc a(u, v);
    a.pref(1);
    u->prefs[a] = 1;
    u->unit_capacities[a].push_back(1);
    v->unit_capacities[a].push_back(1);
    r.push_back(u);
    g.AddArc(a);
  }
  bg->AddCapacity(3);
  g.AddSupplyGroup(bg);
  sv->Solve(&g);
  if (g.matches().size() != 1) return -1;
  for (int i = 0; i < n; ++i) if (g.matches()[0].first.unode() == r[i]) return i;
  return -2;
}
// whether the solver takes an all-or-nothing order for one
static bool holds_exclusive(ExchangeSolver* sv) {
  ExchangeNode::Ptr u(new ExchangeNode(3, true, "c", 0)), v(new ExchangeNode(8, false, "c", 1));
  Arc a(u, v);
  a.pref(1);
  return sv->ArcCost(a) != 1;
}
static std::string control(const std::string& more) { return el("control", el("duration", "7") + el("startmonth", "3") + el("startyear", "2011") + more); }
static std::string places(int facs) {
  std::string f = el("entry", el("prototype", "f") + el("number", str(facs)));
  return el("facility", proto("f", "fac", "x:r:fac", -1)) +
         el("region", proto("r", "reg", "x:r:reg", -1) + el("institution", proto("i", "inst", "x:r:inst", -1) + (facs ? el("initialfacilitylist", f) : "")));
}
struct Run {
  Sim e;
  LiveQ q;
  SimInit si;
  XMLFileLoader* l;
  Run() : q(&e.mem), l(NULL) {}
  Context* go(const std::string& body, bool flat = false) {
    std::string doc = el("simulation", body);
    if (flat) l = new Flat(&e.rec, &q, doc); else l = new Nested(&e.rec, &q, doc);
    l->LoadSim();
    cy_eps = cy_eps_rsrc = 1e-6;  // as in a new process
    si.Init(&e.rec, &q);
    return si.context();
  }
};
static const char* kBool[] = {"", "true", "false", "1", "0"};
static bool says(int k, bool dflt) { return k ? k == 1 || k == 3 : dflt; }

static void settings() {
  Run r;
  int what = vp_choose("which", 0, 4);
  std::string t, c;
  SimInfo w;
  w.decay = "manual"; w.handle = "";
  int dur = irange("duration", 1, 60, &t);
  c += el("duration", t);
  w.m0 = irange("month", 1, 12, &t);
  c += el("startmonth", t);
  w.y0 = irange("year", 1950, 2060, &t);
  c += el("startyear", t);
  w.explicit_inventory = w.explicit_inventory_compact = false;
  w.dt = kDefaultTimeStepDur;
  w.eps = w.eps_rsrc = 1e-6;
  w.seed = kDefaultSeed;
  w.stride = kDefaultStride;
  if (what == 1) {
    int h = vp_choose("decay mode", 0, 2);
    static const char* m[] = {"manual", "never", "lazy"};
    c += el("decay", w.decay = m[h]) + el("simhandle", w.handle = "a handle");
  } else if (what == 2) {
    int a = vp_choose("explicit", 0, 4);
    int b = vp_choose("compact", 0, 4);
    if (a) c += el("explicit_inventory", kBool[a]);
    if (b) c += el("explicit_inventory_compact", kBool[b]);
    w.explicit_inventory = says(a, false);
    w.explicit_inventory_compact = says(b, false);
  } else if (what == 3) {
    int k = vp_choose("numbers", 1, 7);
    if (k & 1) { w.dt = irange("step", 1, 100000, &t); c += el("dt", t); }
    if (k & 2) { w.seed = irange("seed", 1, 100000, &t); c += el("seed", t); }
    if (k & 4) { w.stride = irange("stride", 1, 100000, &t); c += el("stride", t); }
  } else if (what == 4) {
    int k = vp_choose("tolerances", 1, 3);
    if (k & 1) { w.eps = drange("tolerance", 0, 1, -10, &t); c += el("tolerance_generic", " " + t + " "); }
    if (k & 2) { w.eps_rsrc = drange("resource tolerance", 0, 1, -10, &t); c += el("tolerance_resource", t); }
  }
  Context* x = r.go(el("control", c) + el("commodity", el("name", "c") + el("solution_priority", "1")) + specs() + places(1));
  SimInfo s = x->sim_info();
  vp_assert((s.duration == dur) & (s.m0 == w.m0) & (s.y0 == w.y0), "the simulation has the file's duration and start");
  vp_assert(s.handle == w.handle && s.decay == w.decay, "the simulation has the file's handle and decay mode");
  vp_assert(s.explicit_inventory == w.explicit_inventory && s.explicit_inventory_compact == w.explicit_inventory_compact, "inventories are recorded as the file asks");
  vp_assert((s.dt == w.dt) & (s.seed == w.seed) & (s.stride == w.stride), "the simulation has the file's time step, seed and stride, or the defaults");
  vp_assert((s.eps == w.eps) & (s.eps_rsrc == w.eps_rsrc) & (eps() == w.eps) & (eps_rsrc() == w.eps_rsrc), "the simulation uses the file's tolerances, or the defaults");
  vp_reach("settings");
}
static void solver() {
  Run r;
  int n = vp_choose("commodities", 0, 3);
  std::string body, c, t;
  std::vector<std::string> names;
  std::vector<double> pr;
  static const char* nm[] = {"m", "z", "a"};
  for (int i = 0; i < n; ++i) {
    names.push_back(nm[i]);
    pr.push_back(drange("priority", -2, 5, -1, &t));
    body += el("commodity", el("name", nm[i]) + el("solution_priority", t));
  }
  int how = n == 2 ? vp_choose("solver", 0, 3) : 0;
  int ex = n == 2 && how < 2 ? vp_choose("exclusive", 0, 4) : 0;
  std::string s = ex ? el("allow_exclusive_orders", kBool[ex]) : "";
  if (how == 1) s += "<config><greedy/></config>";
  if (how == 2) s += el("config", el("greedy", el("preconditioner", "greedy")));
  if (how == 3) s += el("config", el("nonesuch", ""));
  if (how || ex) c = el("solver", s);
  bool refused = false;
  Context* x = NULL;
  try { x = r.go(control(c) + body + specs() + places(1)); } catch (ValueError&) { refused = true; }
  vp_assert(refused == (how == 3), "a solver is refused exactly when there is no such solver");
  if (refused) { vp_reach("no such solver"); return; }
  vp_assert(holds_exclusive(x->solver()) == says(ex, true), "exclusive orders are allowed as the file says");
  // the smallest number of 1 or more goes first, commodities without one go last
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      bool ui = pr[i] < 1, uj = pr[j] < 1;
      int first = ui & !uj ? j : !ui & uj ? i : ui & uj ? -1 : pr[i] < pr[j] ? i : pr[j] < pr[i] ? j : -1;
      if (first < 0) continue;
      // asked second in the graph, so that it is not first by accident
      std::vector<std::string> two;
      two.push_back(names[first == i ? j : i]);
      two.push_back(names[first]);
      vp_reach("prioritised");
      vp_assert(served(x->solver(), two) == 1, "the exchange is solved in the order of the file's commodity priorities");
    }
  vp_reach("solver");
}
static void recipes() {
  Run r;
  int n = vp_choose("recipes", 1, 2);
  static const char* id[] = {"922350000", "U238", "pu239"};
  static const int nuc[] = {922350000, 922380000, 942390000};
  std::string body, t;
  std::vector<CompMap> v(n);
  std::vector<int> atom(n);
  for (int i = 0; i < n; ++i) {
    atom[i] = vp_choose("basis", 0, 2);
    int k = n == 1 ? vp_choose("nuclides", 1, 3) : 2 - i;
    std::string s = el("name", i ? "second" : "first") + el("basis", atom[i] == 2 ? "volume" : atom[i] ? "atom" : "mass");
    for (int j = 0; j < k; ++j) {
      double amount = 2 * i + j + 1;
      if (n == 1) amount = drange("amount", 0, 8, -4, &t); else t = str((int)amount);
      v[i][nuc[(i + j) % 3]] = amount;
      s += el("nuclide", el("id", id[(i + j) % 3]) + el("comp", t));
    }
    body += el("recipe", s);
  }
  bool bad = atom[0] == 2 || (n > 1 && atom[1] == 2), refused = false;
  Context* x = NULL;
  try { x = r.go(control("") + el("commodity", el("name", "c") + el("solution_priority", "1")) + specs() + places(1) + body); } catch (IOError&) { refused = true; }
  vp_assert(refused == bad, "a recipe is refused exactly when its basis is neither mass nor atoms");
  if (refused) { vp_reach("no such basis"); return; }
  for (int i = 0; i < n; ++i) {
    Composition::Ptr p = x->GetRecipe(i ? "second" : "first");
    if (n == 1) {  // as it was read
      Composition::Ptr w = atom[i] ? Composition::CreateFromAtom(v[i]) : Composition::CreateFromMass(v[i]);
      CompMap got = static_cast<Nested*>(r.l)->context()->GetRecipe("first")->mass(), exp = w->mass();
      vp_assert(got.size() == exp.size(), "a recipe has the nuclides the file lists");
      for (CompMap::iterator j = exp.begin(); j != exp.end(); ++j)
        vp_assert(got.count(j->first) == 1 && got[j->first] == j->second, "a recipe has the proportions the file gives, by mass or by atoms");
      continue;
    }
    CompMap got = atom[i] ? p->atom() : p->mass();
    vp_assert(got.size() == v[i].size(), "a recipe has the nuclides the file lists");
    int a = v[i].begin()->first;
    for (CompMap::iterator j = v[i].begin(); j != v[i].end(); ++j)
      vp_assert(got.count(j->first) == 1 && near(got[a] * j->second, got[j->first] * v[i][a], 1e-9 * j->second * v[i][a]), "the simulation starts with the proportions the file gives");
  }
  vp_reach("recipes");
}
static void containers() {
  Run r;
  int trans = vp_choose("kind", 0, 1);
  int has = vp_choose("given", 0, 7);
  int st = has & 4 ? vp_choose("strategy", 0, 3) : 0;
  static const char* ss[] = {"first", "equal", "uniform", "hybrid"};
  std::string t, s = el("name", "box");
  double lo = 0, hi = 0;
  if (!trans) {
    lo = eps();
    hi = std::numeric_limits<double>::max();
    if (has & 1) { lo = drange("least", 0, 8, -4, &t); s += el("fill_min", t); }
    if (has & 2) { hi = drange("most", 0, 8, -4, &t); s += el("fill_max", t); }
  } else {
    hi = std::numeric_limits<int>::max();
    if (has & 1) { lo = irange("least", 0, 8, &t); s += el("fill_min", t); }
    if (has & 2) { hi = irange("most", 0, 8, &t); s += el("fill_max", t); }
  }
  if (has & 4) s += el("strategy", ss[st]); else st = 0;
  vp_assume(trans || st != 2 || lo != hi);  // nothing to draw between equal limits
  // another one, before or after
  std::string b = el(trans ? "transportunit" : "package", s), b2 = el(trans ? "transportunit" : "package", el("name", "plain") + el("fill_min", "1") + el("fill_max", "2"));
  bool refused = false;
  Context* x = NULL;
  try { x = r.go(control("") + el("commodity", el("name", "c") + el("solution_priority", "1")) + specs() + places(1) + b + b2); } catch (ValueError&) { refused = true; }
  bool bad = lo > hi || (trans ? st == 2 : st == 3);
  vp_assert(refused == bad, "a container is refused exactly when its limits or strategy make no sense");
  if (refused) { vp_reach("refused"); return; }
  if (trans) {
    TransportUnit::Ptr p = x->GetTransportUnit("box"), p2 = x->GetTransportUnit("plain");
    vp_assert((p->fill_min() == lo) & (p->fill_max() == hi) & (p->strategy() == ss[st]), "a transport unit has the file's limits and strategy, or the defaults");
    vp_assert((p2->fill_min() == 1) & (p2->fill_max() == 2) & (p2->strategy() == "first"), "every transport unit of the file is there");
    vp_reach("transport unit");
  } else {
    Package::Ptr p = x->GetPackage("box"), p2 = x->GetPackage("plain");
    vp_assert((p->fill_min() == lo) & (p->fill_max() == hi) & (p->strategy() == ss[st]), "a package has the file's limits and strategy, or the defaults");
    vp_assert((p2->fill_min() == 1) & (p2->fill_max() == 2) & (p2->strategy() == "first"), "every package of the file is there");
    vp_reach("package");
  }
}
static void agents() {
  Run r;
  Tree exp;
  std::string body, t;
  int shape = vp_choose("shape", 0, 3), life = shape ? 0 : vp_choose("lifetime", 0, 2), alias = shape ? 0 : vp_choose("alias", 0, 1);
  // the archetype is found by its alias, and aliases do not depend on where a spec stands
  body += el("facility", proto("f0", "fac", "x:r:fac", life == 0 ? -1 : life == 1 ? 0 : 5));
  body += el("facility", proto("f1", alias ? "other" : "third", alias ? "x:r:fac2" : "x:s:fac", -1));
  int nr = shape == 3 ? 2 : 1;
  for (int i = 0; i < nr; ++i) {
    std::string rn = i ? "ra" : "rz";
    std::string s = proto(rn, "reg", "x:r:reg", -1);
    exp[std::make_pair(std::string(""), rn)] = 1;
    int ni = shape == 2 ? 2 : 1;
    for (int j = 0; j < ni; ++j) {
      std::string in = rn + (j ? "0" : "i");
      s += "<institution>" + proto(in, "inst", "x:r:inst", -1);
      exp[std::make_pair(rn, in)] = 1;
      int ne = shape == 0 ? vp_choose("entries", 0, 1) : shape == 1 ? 2 : shape == 2 ? vp_choose("entries", 0, 1) : 1;
      std::string list;
      for (int k = 0; k < ne; ++k) {
        int same = k ? vp_choose("again", 0, 1) : 0;
        std::string fn = k && !same ? "f0" : "f1";
        int num = irange("number", 0, 2, &t);
        num = num == 0 ? 0 : num == 1 ? 1 : 2;
        list += el("entry", el("prototype", fn) + el("number", t));
        exp[std::make_pair(in, fn)] += num;
      }
      if (ne) s += el("initialfacilitylist", list);
      s += "</institution>";
    }
    body += el("region", s);
  }
  Context* x = r.go(control("") + el("commodity", el("name", "c") + el("solution_priority", "1")) + specs() + body);
  expect_tree(x, exp);
  for (size_t i = 0; i < want.size(); ++i) expect_proto(x, want[i]);
  vp_reach("agents");
}
// agents listed flat, each naming its parent, in any order
static void flat() {
  Run r;
  Tree exp;
  std::string body;
  body += el("prototype", proto("pr", "reg", "x:r:reg", -1));
  body += el("prototype", proto("pi", "inst", "x:r:inst", -1));
  body += el("prototype", proto("pf", "fac", "x:r:fac", 4));
  // names in every order relative to the hierarchy, since agents are kept by name
  static const char* nm[6][3] = {{"a", "b", "c"}, {"a", "c", "b"}, {"b", "a", "c"}, {"b", "c", "a"}, {"c", "a", "b"}, {"c", "b", "a"}};
  int o = vp_choose("names", 0, 5), w = vp_choose("order", 0, 2), more = vp_choose("more", 0, 2);
  std::string ag[3];
  ag[0] = el("agent", el("name", nm[o][0]) + el("prototype", "pr"));
  ag[1] = el("agent", el("name", nm[o][1]) + el("prototype", "pi") + el("parent", nm[o][0]));
  ag[2] = el("agent", el("name", nm[o][2]) + el("prototype", "pf") + el("parent", more == 2 ? "nobody" : nm[o][1]));
  for (int k = 0; k < 3; ++k) body += ag[(w + k) % 3];
  exp[std::make_pair(std::string(""), std::string("pr"))] = 1;
  exp[std::make_pair(std::string("pr"), std::string("pi"))] = 1;
  exp[std::make_pair(std::string("pi"), std::string("pf"))] = more == 1 ? 2 : 1;
  if (more == 1) body += el("agent", el("name", vp_choose("early", 0, 1) ? "0" : "x") + el("prototype", "pf") + el("parent", nm[o][1]));
  bool refused = false;
  Context* x = NULL;
  try { x = r.go(control("") + el("commodity", el("name", "c") + el("solution_priority", "1")) + specs() + body, true); } catch (Error&) { refused = true; }
  vp_assert(refused == (more == 2), "a flat input is refused exactly when an agent's parent is not in it");
  if (refused) { vp_reach("no such parent"); return; }
  expect_tree(x, exp);
  for (size_t i = 0; i < want.size(); ++i) expect_proto(x, want[i]);
  vp_reach("flat");
}
void vp_harness() {
  warn_limit = 0;
  told = 0;
  want.clear(); dval.clear(); ival.clear();
  SimInitTest::ctor("x:r:fac", mkfac);
  SimInitTest::ctor("x:r:fac2", mkfac);
  SimInitTest::ctor("x:s:fac", mkfac);
  SimInitTest::ctor("x:r:inst", mkinst);
  SimInitTest::ctor("x:r:reg", mkreg);
  switch (vp_choose("part", 0, 5)) {
    case 0: settings(); break;
    case 1: solver(); break;
    case 2: recipes(); break;
    case 3: containers(); break;
    case 4: agents(); break;
    default: flat();
  }
}
