// C36: what is generated for annotated archetypes keeps every state variable, for
// all values: copied, recorded and restored, read from the input, inventories included.
#include "infile.h"
#include "arch_all.h"
using namespace vph;
using vpa::Plain;
using vpa::Nested;
static bool eq(double a, double b) { return a == b; }
static bool eq(int a, int b) { return a == b; }
static bool eq(bool a, bool b) { return a == b; }
static bool eq(const std::string& a, const std::string& b) { return a == b; }
template <class A, class B> bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b);
template <class T> bool eq(const std::vector<T>& a, const std::vector<T>& b);
template <class T> bool eq(const std::list<T>& a, const std::list<T>& b);
template <class T> bool eq(const std::set<T>& a, const std::set<T>& b);
template <class K, class T> bool eq(const std::map<K, T>& a, const std::map<K, T>& b);
template <class C> bool eqc(const C& a, const C& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  typename C::const_iterator j = b.begin();
  for (typename C::const_iterator i = a.begin(); i != a.end(); ++i, ++j) ok &= eq(*i, *j);
  return ok;
}
template <class T> bool eq(const std::vector<T>& a, const std::vector<T>& b) { return eqc(a, b); }
template <class T> bool eq(const std::list<T>& a, const std::list<T>& b) { return eqc(a, b); }
template <class T> bool eq(const std::set<T>& a, const std::set<T>& b) { return eqc(a, b); }
template <class K, class T> bool eq(const std::map<K, T>& a, const std::map<K, T>& b) { return eqc(a, b); }
template <class A, class B> bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return eq(a.first, b.first) & eq(a.second, b.second); }

struct PlainVals { double num; int whole; bool flag; double renamed; std::string text; int hidden; double derived, size; };
static void same(Plain* p, const PlainVals& v, const char* how) {
  bool ok = eq(p->num, v.num) & eq(p->whole, v.whole) & eq(p->flag, v.flag) & eq(p->renamed, v.renamed);
  ok &= eq(p->text, v.text) & eq(p->hidden, v.hidden) & eq(p->derived, v.derived) & eq(p->size, v.size);
  vp_assert(ok, how);
}
struct NestedVals {
  std::vector<double> vd; std::vector<std::string> vs; std::set<int> si; std::list<int> li; std::pair<int, double> pid;
  std::map<std::string, double> msd; std::map<std::string, std::vector<double> > msvd;
  std::vector<std::pair<int, std::string> > vp; std::map<int, std::map<std::string, double> > mm; std::vector<std::vector<int> > vv;
};
static void same(Nested* p, const NestedVals& v, const char* how) {
  bool ok = eq(p->vd, v.vd) & eq(p->vs, v.vs) & eq(p->si, v.si) & eq(p->li, v.li) & eq(p->pid, v.pid);
  ok &= eq(p->msd, v.msd) & eq(p->msvd, v.msvd) & eq(p->vp, v.vp) & eq(p->mm, v.mm) & eq(p->vv, v.vv);
  vp_assert(ok, how);
}

static void plain(Sim& e) {
  int how = vp_choose("how", 0, 3);
  Plain* a = fresh<Plain>(e, ":lib:Plain");
  PlainVals v = {0, 7, true, 2.0000152587890625, "none", 11, 0, 1000};
  if (how < 3) {
    a->num = v.num = newd(); a->whole = v.whole = newi();
    a->flag = v.flag = vp_choose("flag", 0, 1);
    a->renamed = v.renamed = newd(); a->text = v.text = "some text that is longer than inline";
    a->hidden = v.hidden = newi(); a->derived = v.derived = newd();
    a->size = v.size = vp_double("size", 0, 64, -10);
    a->lifetime(vp_int("life", 1, 20));
  }
  if (how == 0) {
    a->mats.capacity(v.size);
    CompMap m; m[922350000] = 1;
    double q = vp_double("q", 0, 64, -10);
    vp_assume((q > eps_rsrc()) & (q <= v.size));
    a->mats.Push(Material::CreateUntracked(q, Composition::CreateFromMass(m)));
    Plain* c = dynamic_cast<Plain*>(a->Clone());
    vp_assert(c != NULL && c != a, "a clone is an agent of the same archetype");
    if (!c) return;
    same(c, v, "a clone has the state of the original");
    vp_assert(c->prototype() == "p" && c->spec() == ":lib:Plain" && c->lifetime() == a->lifetime() && c->id() != a->id(), "a clone has the identity of the original, except for its id");
    vp_assert(c->mats.empty() && c->prods.empty() && eq(c->mats.capacity(), a->mats.capacity()), "a clone has inventories of the original's size, empty");
    vp_assert(a->mats.count() == 1 && eq(a->mats.quantity(), q), "cloning leaves the original alone");
    vp_reach("clone");
  } else if (how == 1) {
    a->Agent::Snapshot(DbInit(a, true));
    a->Snapshot(DbInit(a));
    Plain* other = fresh<Plain>(e, ":lib:Plain");  // recorded as well
    other->num = 1; other->whole = 2; other->flag = false; other->renamed = 3; other->text = ""; other->hidden = 4; other->derived = 5; other->size = 6;
    other->Agent::Snapshot(DbInit(other, true));
    other->Snapshot(DbInit(other));
    Plain* r = fresh<Plain>(e, ":lib:Plain");
    restore(r, e, a->id());
    same(r, v, "an archetype's state is restored from its record");
    vp_assert(eq(r->mats.capacity(), v.size), "an inventory is restored with its annotated capacity");
    vp_assert(r->id() == a->id() && r->lifetime() == a->lifetime() && r->prototype() == "p", "an agent is restored with its identity");
    vp_assert(r->prods.capacity() > 1e100, "an inventory without an annotated capacity is unlimited");
    std::vector<Row> rows = e.mem.table("AgentState_lib_PlainInfo");
    vp_assert(rows.size() == 2, "an agent's state is recorded as one row");
    bool shape = false;
    for (size_t i = 0; i < rows.size(); ++i) for (size_t k = 0; k < rows[i].vals.size(); ++k)
      if (rows[i].vals[k].first == "text") shape = rows[i].shapes[k] == std::vector<int>(1, 32);
    // the shape is set when the state is initialised, so the restored agent's record has it
    e.mem.rows.clear();
    r->Snapshot(DbInit(r));
    e.rec.Flush();
    rows = e.mem.table("AgentState_lib_PlainInfo");
    for (size_t i = 0; i < rows.size(); ++i) for (size_t k = 0; k < rows[i].vals.size(); ++k)
      if (rows[i].vals[k].first == "text") shape = rows[i].shapes[k] == std::vector<int>(1, 32);
    vp_assert(shape, "a state variable is recorded with its annotated shape");
    vp_reach("restored");
  } else if (how == 2) {
    CompMap m; m[922350000] = 1;
    int nm = vp_choose("materials", 0, 2), np = vp_choose("products", 0, 2);
    std::vector<Resource::Ptr> rm, rp;
    for (int i = 0; i < nm; ++i) { rm.push_back(Material::Create(a, vp_double("q", 1, 32, -10), Composition::CreateFromMass(m))); a->mats.Push(ResCast<Material>(rm[i])); }
    for (int i = 0; i < np; ++i) { rp.push_back(Product::Create(a, vp_double("q", 1, 32, -10), "stuff")); a->prods.Push(ResCast<Product>(rp[i])); }
    Inventories inv = a->SnapshotInv();
    vp_assert(inv["mats"] == rm && inv["prods"] == rp && inv.size() == 2, "a snapshot of the inventories lists exactly what is in them, by name, in order");
    vp_assert(a->mats.count() == nm && a->prods.count() == np, "a snapshot leaves the inventories as they are");
    Plain* r = fresh<Plain>(e, ":lib:Plain");
    r->InitInv(inv);
    bool ok = r->mats.count() == nm && r->prods.count() == np;
    for (int i = 0; ok && i < nm; ++i) ok = r->mats.Pop() == rm[i];
    for (int i = 0; ok && i < np; ++i) ok = r->prods.Pop() == rp[i];
    vp_assert(ok, "inventories are restored from their snapshot");
    vp_reach("inventories");
  } else {
    std::string s = el("num", d_in(&v.num));
    int given = vp_choose("given", 0, 31);  // which optional variables the input has
    int life = vp_choose("life", 0, 1) ? 12 : -1;
    if (given & 1) s += el("whole", i_in(&v.whole));
    if (given & 2) { int f = vp_choose("flag", 0, 1); v.flag = f; s += el("flag", f ? "1" : "0"); }
    if (given & 4) s += el("other_name", d_in(&v.renamed));
    if (given & 8) { v.text = "a text"; s += el("text", "a text"); }
    if (given & 16) s += el("size", d_in(&v.size));
    if (given & 16) vp_assume(v.size >= 0);
    v.derived = v.num + v.whole;
    load(a, s, life);
    Plain* r = fresh<Plain>(e, ":lib:Plain");
    restore(r, e, a->id());
    same(r, v, "a state variable has the value the input gives, or its default");
    vp_assert(r->prototype() == "proto" && r->lifetime() == life, "an agent has the name and lifetime the input gives");
    vp_assert(eq(r->mats.capacity(), v.size), "an inventory has its annotated capacity");
    vp_reach(given == 31 ? "all given" : given == 0 ? "defaults" : "some given");
  }
}

static void fill(NestedVals& v) {
  v.vd.push_back(newd()); v.vd.push_back(newd());
  v.vs.push_back("one"); v.vs.push_back("two");
  v.si.insert(newi()); v.si.insert(newi());
  v.li.push_back(newi()); v.li.push_back(newi());
  int pi = newi(); double pd = newd();
  v.pid = std::make_pair(pi, pd);
  v.msd["a"] = newd(); v.msd["b"] = newd();
  v.msvd["a"].push_back(newd()); v.msvd["b"].push_back(newd()); v.msvd["b"].push_back(newd());
  int qi = newi();
  v.vp.push_back(std::make_pair(qi, std::string("q")));
  v.mm[1]["a"] = newd(); v.mm[1]["b"] = newd(); v.mm[2]["a"] = newd();
  v.vv.resize(3);
  v.vv[0].push_back(newi()); v.vv[2].push_back(newi()); v.vv[2].push_back(newi());
}
static void nested(Sim& e) {
  int how = vp_choose("how", 0, 2);
  Nested* a = fresh<Nested>(e, ":lib:Nested");
  NestedVals v;
  if (how < 2) {
    fill(v);
    a->vd = v.vd; a->vs = v.vs; a->si = v.si; a->li = v.li; a->pid = v.pid; a->msd = v.msd; a->msvd = v.msvd; a->vp = v.vp; a->mm = v.mm; a->vv = v.vv;
  }
  if (how == 0) {
    Nested* c = dynamic_cast<Nested*>(a->Clone());
    vp_assert(c != NULL, "a clone is an agent of the same archetype");
    if (!c) return;
    same(c, v, "a clone has the state of the original");
    vp_reach("nested clone");
  } else if (how == 1) {
    a->Agent::Snapshot(DbInit(a, true));
    a->Snapshot(DbInit(a));
    Nested* r = fresh<Nested>(e, ":lib:Nested");
    restore(r, e, a->id());
    same(r, v, "an archetype's state is restored from its record");
    e.mem.rows.clear();
    r->Snapshot(DbInit(r));
    e.rec.Flush();
    std::vector<Row> rows = e.mem.table("AgentState_lib_NestedInfo");
    vp_assert(rows.size() == 1, "an agent's state is recorded as one row");
    bool vd = false, li = false, vv = false, mm = false;
    int w5[] = {5, -1}, w3[] = {3, -1};
    for (size_t k = 0; rows.size() && k < rows[0].vals.size(); ++k) {
      std::string f = rows[0].vals[k].first;
      std::vector<int> s = rows[0].shapes[k];
      if (f == "vd") vd = s == std::vector<int>(w5, w5 + 2);
      if (f == "li") li = s == std::vector<int>(w3, w3 + 2);
      if (f == "vv") vv = s == std::vector<int>(3, -1);
      if (f == "mm") mm = s == std::vector<int>(5, -1);
    }
    vp_assert(li && vv && mm, "a state variable is recorded with its annotated shape");
    vp_assert(vd, "an annotated shape is completed with free extents");
    vp_reach("nested restored");
  } else {
    int given = vp_choose("given", 0, 1);
    int x;
    double y;
    std::string s, t;
    int n = vp_choose("n", 0, 2);
    for (int i = 0; i < n; ++i) { t += el("val", d_in(&y)); v.vd.push_back(y); }
    s += el("vd", t); t = "";
    for (int i = 0; i < n; ++i) { t += el("entry", i_in(&x)); v.li.push_back(x); }
    s += el("items", t); t = "";
    for (int i = 0; i < 2; ++i) {
      std::string u, k = i ? "second key" : "first";
      v.msvd[k];
      for (int j = 0; j < (i ? 2 : n); ++j) { u += el("n", d_in(&y)); v.msvd[k].push_back(y); }
      t += el("row", el("name", k) + el("nums", u));
    }
    s += el("table", t); t = "";
    for (int i = 0; i < n; ++i) {
      std::string u;
      for (int j = 0; j <= i; ++j) { u += el("item", el("key", j ? "b" : "a") + el("val", d_in(&y))); v.mm[i][j ? "b" : "a"] = y; }
      ival.push_back(i);
      t += el("item", el("key", "@" + str((int)ival.size() - 1)) + el("val", u));
    }
    s += el("mm", t); t = "";
    for (int i = 0; i < n; ++i) {
      std::string u;
      v.vv.push_back(std::vector<int>());
      for (int j = 0; j < 2 * i; ++j) { u += el("val", i_in(&x)); v.vv[i].push_back(x); }
      t += el("val", u);
    }
    s += el("vv", t); t = "";
    if (given) {
      for (int i = 0; i < n; ++i) { std::string w = i ? "some words" : "w"; t += el("val", w); v.vs.push_back(w); }
      s += el("vs", t); t = "";
      for (int i = 0; i < n; ++i) { t += el("val", i_in(&x)); v.si.insert(x); }
      s += el("si", t); t = "";
      t = el("first", i_in(&x)); t += el("second", d_in(&y));
      v.pid = std::make_pair(x, y);
      s += el("pid", t); t = "";
      for (int i = 0; i < n; ++i) { std::string k = i ? "k1" : "k0"; t += el("item", el("key", k) + el("val", d_in(&y))); v.msd[k] = y; }
      s += el("msd", t); t = "";
      for (int i = 0; i < n; ++i) { std::string w = i ? "some words" : "w"; t += el("val", el("first", i_in(&x)) + el("second", w)); v.vp.push_back(std::make_pair(x, w)); }
      s += el("vp", t); t = "";
    } else {
      v.vs.push_back("x"); v.vs.push_back("y");
      v.si.insert(1); v.si.insert(2);
      v.pid = std::make_pair(4, 0.25);
      v.msd["a"] = 1.5;
      v.vp.push_back(std::make_pair(3, std::string("three")));
    }
    load(a, s, -1);
    Nested* r = fresh<Nested>(e, ":lib:Nested");
    restore(r, e, a->id());
    same(r, v, "a state variable has the value the input gives, or its default");
    vp_reach(given ? "nested input" : "nested defaults");
  }
}

struct MoreVals {
  int nuc, named; std::vector<int> nucs; std::map<int, double> fracs; std::list<int> li; std::set<std::string> ss; std::vector<int> vi, kept; std::map<std::string, int> marks; std::pair<int, int> tagged; bool off;
  std::pair<int, int> pii; std::map<std::string, std::pair<double, std::map<int, double> > > deep;
  std::vector<std::pair<std::pair<double, double>, std::map<std::string, double> > > far; int zero; std::string empty; double last;
};
static void same(vpa::More* p, const MoreVals& v, const char* how) {
  bool ok = eq(p->nuc, v.nuc) & eq(p->named, v.named) & eq(p->nucs, v.nucs) & eq(p->fracs, v.fracs) & eq(p->li, v.li) & eq(p->ss, v.ss);
  ok &= eq(p->vi, v.vi) & eq(p->kept, v.kept) & eq(p->off, v.off) & eq(p->pii, v.pii) & eq(p->deep, v.deep) & eq(p->far, v.far);
  ok &= eq(p->zero, v.zero) & eq(p->empty, v.empty) & eq(p->marks, v.marks) & eq(p->tagged, v.tagged) & eq(p->last, v.last);
  vp_assert(ok, how);
}
static void more(Sim& e) {
  using vpa::More;
  int how = vp_choose("how", 0, 2);
  More* a = fresh<More>(e, ":lib:More");
  MoreVals v;
  int x;
  double y;
  std::string s, t;
  if (how < 2) {
    v.nuc = newi(); v.named = newi(); v.nucs.push_back(newi()); v.fracs[1] = newd(); v.li.push_back(newi()); v.li.push_back(newi());
    v.ss.insert("z"); v.ss.insert("a"); v.vi.push_back(newi()); v.kept.push_back(newi()); v.kept.push_back(newi());
    v.off = vp_choose("off", 0, 1);
    v.pii.first = newi(); v.pii.second = newi();
    v.deep["k"].first = newd(); v.deep["k"].second[3] = newd(); v.deep["l"].first = newd();
    v.far.resize(2); v.far[0].first.first = newd(); v.far[0].first.second = newd(); v.far[0].second["m"] = newd(); v.far[1].first.first = newd(); v.far[1].first.second = 0;
    v.zero = newi(); v.empty = "e"; v.last = newd(); v.marks["x"] = newi(); v.tagged.first = 5; v.tagged.second = 7;
    a->marks = v.marks; a->tagged = v.tagged;
    a->nuc = v.nuc; a->named = v.named; a->nucs = v.nucs; a->fracs = v.fracs; a->li = v.li; a->ss = v.ss; a->vi = v.vi; a->kept = v.kept; a->off = v.off;
    a->pii = v.pii; a->deep = v.deep; a->far = v.far; a->zero = v.zero; a->empty = v.empty; a->last = v.last;
  }
  if (how == 0) {
    More* c = dynamic_cast<More*>(a->Clone());
    vp_assert(c != NULL, "a clone is an agent of the same archetype");
    if (!c) return;
    same(c, v, "a clone has the state of the original");
    vp_reach("another clone");
  } else if (how == 1) {
    a->Agent::Snapshot(DbInit(a, true));
    a->Snapshot(DbInit(a));
    More* r = fresh<More>(e, ":lib:More");
    restore(r, e, a->id());
    same(r, v, "an archetype's state is restored from its record");
    vp_reach("another restored");
  } else {
    int given = vp_choose("given", 0, 1), n = vp_choose("n", 0, 2);
    v.nuc = 922350000; v.named = 942390000; v.off = false; v.pii = std::make_pair(1, 2); v.zero = 0; v.last = 0;
    v.tagged = std::make_pair(3, 942400000);
    v.kept.push_back(8); v.kept.push_back(9);
    t = el("val", "Cs137") + el("val", "10030000"); v.nucs.push_back(551370000); v.nucs.push_back(10030000);
    s += el("nucs", t); t = "";
    for (int i = 0; i < n; ++i) {
      std::string u, k = i ? "k1" : "k0";
      v.deep[k];
      for (int j = 0; j <= i; ++j) { ival.push_back(j); u += el("item", el("key", "@" + str((int)ival.size() - 1)) + el("val", d_in(&y))); v.deep[k].second[j] = y; }
      t += el("item", el("key", k) + el("val", el("first", d_in(&y)) + el("second", u)));
      v.deep[k].first = y;
    }
    s += el("deep", t); t = "";
    v.far.resize(n);
    for (int i = 0; i < n; ++i) {
      std::string u;
      u = el("first", d_in(&v.far[i].first.first));
      u += el("second", d_in(&v.far[i].first.second));
      std::string w;
      for (int j = 0; j < i; ++j) { w += el("item", el("key", "m") + el("val", d_in(&y))); v.far[i].second["m"] = y; }
      t += el("val", el("first", u) + el("second", w));
    }
    s += el("far", t); t = "";
    if (given) {
      s += el("nuc", "Am242m"); v.nuc = 952420001;
      s += el("named", "U238"); v.named = 922380000;
      t = el("item", el("key", "H3") + el("val", d_in(&y))); v.fracs[10030000] = y;
      t += el("item", el("key", "80160000") + el("val", d_in(&y))); v.fracs[80160000] = y;
      s += el("fracs", t); t = "";
      for (int i = 0; i < n; ++i) { t += el("val", i_in(&x)); v.li.push_back(x); }
      s += el("li", t); t = "";
      for (int i = 0; i < n; ++i) { std::string w = i ? "some words" : "w"; t += el("val", w); v.ss.insert(w); }
      s += el("ss", t); t = "";
      for (int i = 0; i < n; ++i) { t += el("val", i_in(&x)); v.vi.push_back(x); }
      s += el("vi", t); t = "";
      s += el("marks", el("item", el("key", "a") + el("val", "U235"))); v.marks["a"] = 922350000;
      s += el("tagged", el("first", "4") + el("second", "Th232")); v.tagged = std::make_pair(4, 902320000);
      s += el("off", "1"); v.off = true;
      t = el("left", i_in(&x)); v.pii.first = x;
      t += el("right", i_in(&x)); v.pii.second = x;
      s += el("pairs", t); t = "";
      s += el("zero", i_in(&v.zero));
      s += el("empty", "no"); v.empty = "no";
      s += el("last", d_in(&y)); v.last = y + v.zero;
    } else {
      v.fracs[922380000] = 0.5; v.fracs[922350000] = 0.25;
      v.li.push_back(5); v.li.push_back(3); v.li.push_back(4);
      v.ss.insert("p"); v.ss.insert("q"); v.ss.insert("r");
      v.vi.push_back(6); v.vi.push_back(7);
      v.marks["first"] = 942390000;
    }
    load(a, s, -1);
    More* r = fresh<More>(e, ":lib:More");
    restore(r, e, a->id());
    same(r, v, "a state variable has the value the input gives, or its default");
    vp_reach(given ? "more input" : "more defaults");
  }
}

void vp_harness() {
  warn_limit = 0;
  dval.clear(); ival.clear();
  Sim e;
  e.init();
  switch (vp_choose("archetype", 0, 2)) {
    case 0: plain(e); break;
    case 1: nested(e); break;
    default: more(e);
  }
  delete e.ctx;
}
