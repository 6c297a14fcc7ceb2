// C16: what is recorded in a database is what queries return.
#include "common.h"
#include "blob.h"
#include "sqlite_back.h"
#ifdef __clang__
#include "fakesql.h"
#endif
#include <cstdio>
#include <unistd.h>
#include <boost/uuid/uuid_generators.hpp>
using namespace vph;
static const int G = -8;
static const char* kStr[] = {"alpha", "beta", "it's; \"odd\" <&>", ""};
struct Rec { int k; double v; int s; bool b; float f; int table; };
template <class T> static void add(std::vector<Cond>* cs, const char* f, const std::string& op, T v) { cs->push_back(Cond(f, op, v)); }
static bool rel(int op, int o) { return op == 0 ? o < 0 : op == 1 ? o > 0 : op == 2 ? o <= 0 : op == 3 ? o >= 0 : op == 4 ? o == 0 : o != 0; }
static const char* kOp[] = {"<", ">", "<=", ">=", "==", "!="};
static void record(Recorder* rec, const Rec& r) {
  if (r.table == 0) rec->NewDatum("Tab")->AddVal("k", r.k)->AddVal("v", r.v)->AddVal("s", std::string(kStr[r.s]))->AddVal("b", r.b)->Record();
  else rec->NewDatum("Other")->AddVal("f", r.f)->AddVal("k", r.k)->Record();
}
static bool same(const QueryResult& qc, int row, const Rec& r) {
  QueryResult& q = const_cast<QueryResult&>(qc);
  if (r.table == 0) {
    bool num = (q.GetVal<int>("k", row) == r.k) & (q.GetVal<double>("v", row) == r.v) & (q.GetVal<bool>("b", row) == r.b);
    return num && q.GetVal<std::string>("s", row) == kStr[r.s];
  }
  return (q.GetVal<float>("f", row) == r.f) & (q.GetVal<int>("k", row) == r.k);
}
template <class T> static void trip(QueryableBackend* b, Recorder* rec, const T& a, const T& c) {
  rec->NewDatum("Typed")->AddVal("x", a)->Record();
  rec->NewDatum("Typed")->AddVal("x", c)->Record();
  rec->Flush();
  QueryResult q = b->Query("Typed", NULL);
  vp_assert(q.rows.size() == 2 && q.GetVal<T>("x", 0) == a && q.GetVal<T>("x", 1) == c, "a value of any supported type comes back as it was recorded");
}
void vp_harness() {
  const bool th = vp_sym_tier();
  std::string path = "/tmp/vp-c16-" + std::to_string(getpid()) + ".sqlite";
  std::remove(path.c_str());
  int kind = vp_choose("kind", 0, 3);
  SqliteBack* b = new SqliteBack(path);
  Recorder* rec = new Recorder((unsigned)(kind == 1 || kind == 2 ? vp_choose("dump", 1, 2) : 2));
  rec->RegisterBackend(b);
  if (kind == 3) {  // every type
    int n[] = {0, -1, 7, 100000}, pick = vp_choose("values", 0, 3), i = n[pick], j = 3;
    double x = pick & 1 ? 1e-300 : 0.1;
    std::string s = kStr[pick], t("second");
    std::map<int, double> mid; mid[i] = x; mid[j] = -2.5;
    std::map<std::string, double> msd; msd[s] = x; msd[t] = 1e299;
    std::map<std::string, int> msi; msi[s] = i;
    std::map<int, int> mii; mii[i] = j;
    std::map<int, std::string> mis; mis[i] = s;
    std::map<std::string, std::string> mss; mss[s] = t;
    std::vector<int> vi; vi.push_back(i); vi.push_back(i);
    std::vector<double> vd; vd.push_back(x); vd.push_back(-x);
    std::vector<std::string> vs; vs.push_back(s); vs.push_back(t);
    switch (vp_choose("type", 0, 25)) {
      case 0: trip(b, rec, vi, std::vector<int>()); break;
      case 1: trip(b, rec, vd, std::vector<double>()); break;
      case 2: trip(b, rec, vs, std::vector<std::string>()); break;
      case 3: trip(b, rec, std::set<int>(vi.begin(), vi.end()), std::set<int>()); break;
      case 4: trip(b, rec, std::set<std::string>(vs.begin(), vs.end()), std::set<std::string>()); break;
      case 5: trip(b, rec, std::list<int>(vi.begin(), vi.end()), std::list<int>()); break;
      case 6: trip(b, rec, std::list<std::string>(vs.begin(), vs.end()), std::list<std::string>()); break;
      case 7: trip(b, rec, mid, std::map<int, double>()); break;
      case 8: trip(b, rec, mii, std::map<int, int>()); break;
      case 9: trip(b, rec, mis, std::map<int, std::string>()); break;
      case 10: trip(b, rec, msi, std::map<std::string, int>()); break;
      case 11: trip(b, rec, msd, std::map<std::string, double>()); break;
      case 12: trip(b, rec, mss, std::map<std::string, std::string>()); break;
      case 13: { std::map<std::string, std::vector<double> > m; m[s] = vd; m[t]; trip(b, rec, m, std::map<std::string, std::vector<double> >()); break; }
      case 14: { std::map<std::string, std::map<int, double> > m; m[s] = mid; trip(b, rec, m, std::map<std::string, std::map<int, double> >()); break; }
      case 15: { typedef std::map<std::string, std::pair<double, std::map<int, double> > > T; T m; m[s] = std::make_pair(x, mid); trip(b, rec, m, T()); break; }
      case 16: { typedef std::map<int, std::map<std::string, double> > T; T m; m[i] = msd; trip(b, rec, m, T()); break; }
      case 17: { typedef std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string> > > > T; T m; m[s].push_back(std::make_pair(i, std::make_pair(t, s))); trip(b, rec, m, T()); break; }
      case 18: { typedef std::map<std::string, std::pair<std::string, std::vector<double> > > T; T m; m[t] = std::make_pair(s, vd); trip(b, rec, m, T()); break; }
      case 19: { typedef std::list<std::pair<int, int> > T; T m; m.push_back(std::make_pair(i, j)); trip(b, rec, m, T()); break; }
      case 20: { typedef std::map<std::string, std::map<std::string, int> > T; T m; m[s] = msi; trip(b, rec, m, T()); break; }
      case 21: { typedef std::vector<std::pair<std::pair<double, double>, std::map<std::string, double> > > T; T m; m.push_back(std::make_pair(std::make_pair(x, 2.), msd)); trip(b, rec, m, T()); break; }
      case 22: { typedef std::map<std::pair<std::string, std::string>, int> T; T m; m[std::make_pair(s, t)] = i; trip(b, rec, m, T()); break; }
      case 23: { typedef std::map<std::string, std::map<std::string, double> > T; T m; m[t] = msd; trip(b, rec, m, T()); break; }
      case 24: {
        std::string raw("a\0b\n", 4);
        rec->NewDatum("Typed")->AddVal("x", Blob(raw))->AddVal("y", Blob(""))->AddVal("z", s)->Record();
        rec->Flush();
        QueryResult q = b->Query("Typed", NULL);
        vp_assert(q.rows.size() == 1 && q.GetVal<Blob>("x", 0).str() == raw && q.GetVal<Blob>("y", 0).str() == "" && q.GetVal<std::string>("z", 0) == s, "blobs come back as they were recorded");
        break;
      }
      default: {
        boost::uuids::uuid u = rec->sim_id();
        trip(b, rec, u, boost::uuids::nil_uuid());
        std::vector<Cond> cs;
        add(&cs, "x", "==", u);
        vp_assert(b->Query("Typed", &cs).rows.size() == 1, "rows can be chosen by an id");
      }
    }
    vp_reach("types");
  } else {
    // rows with arbitrary values
    const int N = 3;
    std::vector<Rec> in;
    for (int i = 0; i < N; ++i) {
      Rec r;
      r.k = vp_int("k", -4, 4);
      r.v = vp_double("v", -8, 8, G);
      r.s = (kind == 0 ? i : 2 * i) % 4; r.b = i != 1; r.f = (float)(i * .5 - .5);
      r.table = kind == 0 && i < 2 ? 0 : vp_choose("table", 0, 1);
      if (kind == 2 && i == 1) {  // something that cannot be stored comes between
        int bad = vp_choose("bad", 0, 2);
        Out o = attempt([&] {
          if (bad == 0) rec->NewDatum("Tab2")->AddVal("k", 1)->AddVal("x", (short)1)->Record();
          else if (bad == 1) rec->NewDatum("no such title")->AddVal("k", 1)->Record();
          else rec->NewDatum("Tab3")->AddVal("no such field,", 1)->Record();
          rec->Flush();
        });
        vp_assert(bad != 0 || o == VALUE, "values of unsupported types are refused with ValueError");
        if (o != OK) attempt([&] { rec->Flush(); });
        vp_reach(o == OK ? "stored after all" : "refused");
      }
      in.push_back(r);
      record(rec, r);
    }
    rec->Flush();
    QueryableBackend* q = b;
    SqliteBack* b2 = NULL;
    int other = 0;
    if (kind == 1) {  // the same database opened again by another simulation, which adds a row
      delete rec;
      delete b;
      b2 = new SqliteBack(path);
      b = NULL; q = b2;
      rec = new Recorder(1u);
      rec->RegisterBackend(b2);
      Rec r = in[0];
      r.k = 1; r.table = vp_choose("later table", 0, 1);
      record(rec, r);
      rec->Flush();
      in.push_back(r);
      other = 1;
      vp_reach("reopened");
    }
    int n0 = 0, n1 = 0;
    for (size_t i = 0; i < in.size(); ++i) (in[i].table ? n1 : n0)++;
    std::set<std::string> tabs = q->Tables();
    vp_assert(tabs.count("Tab") == (n0 > 0) && tabs.count("Other") == (n1 > 0), "the tables are those recorded");
    if (kind != 2) vp_assert(tabs.size() == (size_t)((n0 > 0) + (n1 > 0)), "there are no other tables");
    for (int t = 0; t < 2; ++t) {
      if (!(t ? n1 : n0)) { vp_assert(attempt([&] { q->Query(t ? "Other" : "Tab", NULL); }) == VALUE, "an unknown table is refused"); continue; }
      QueryResult all = q->Query(t ? "Other" : "Tab", NULL);
      vp_assert((int)all.rows.size() == (t ? n1 : n0), "every row is returned once");
      size_t at = 0;
      for (size_t i = 0; i < in.size(); ++i) {
        if (in[i].table != t) continue;
        vp_assert(same(all, at, in[i]), "rows come back in the order recorded, as they were recorded");
        ++at;
      }
      std::map<std::string, DbTypes> ty = q->ColumnTypes(t ? "Other" : "Tab");
      vp_assert(ty.size() == (t ? 3u : 5u) && ty["k"] == INT && ty["SimId"] == UUID && (t ? ty["f"] == FLOAT : ty["v"] == DOUBLE && ty["s"] == STRING && ty["b"] == BOOL), "columns have the types recorded");
      std::list<ColumnInfo> sc = q->Schema(t ? "Other" : "Tab");
      vp_assert(sc.size() == ty.size(), "the schema has all columns");
    }
    // conditions
    if (kind == 0 || (kind == 1 && n0 > 0)) {
      int nc = vp_choose("conditions", 0, kind == 0 ? 3 : 1);
      std::vector<Cond> cs;
      int cf[3], co[3], ck[3]; double cv[3];
      for (int i = 0; i < nc; ++i) {
        cf[i] = i == 1 ? 1 : nc == 3 ? (i ? 0 : 2) : vp_choose("field", 0, kind == 0 ? 3 : 0);
        co[i] = nc == 3 ? (i ? 3 : 1) : i == 0 || th ? vp_choose("op", 0, 5) : 3;
        ck[i] = 0; cv[i] = 0;
        if (cf[i] == 0) { ck[i] = vp_int("bound", -4, 4); add(&cs, "k", kOp[co[i]], ck[i]); }
        else if (cf[i] == 1) { cv[i] = vp_double("bound", -8, 8, G); add(&cs, "v", kOp[co[i]], cv[i]); }
        else if (cf[i] == 2) add(&cs, "s", kOp[co[i]], std::string("alpha"));
        else add(&cs, "b", kOp[co[i]], true);
      }
      bool inj = kind == 1 && vp_choose("of this simulation", 0, 1);
      QueryableBackend* qq = q;
      std::vector<Cond> ic;
      CondInjector* ci = NULL;
      if (inj) { add(&ic, "SimId", "==", rec->sim_id()); ci = new CondInjector(q, ic); qq = ci; }
      QueryResult got = qq->Query("Tab", nc || vp_choose("no conditions as", 0, 1) ? &cs : NULL);
      size_t at = 0;
      bool ok = true;
      for (size_t i = 0; i < in.size(); ++i) {
        if (in[i].table != 0) continue;
        if (inj && i < in.size() - 1) continue;
        bool keep = true;
        for (int c = 0; c < nc; ++c) {
          int o;
          if (cf[c] == 0) o = (in[i].k > ck[c]) - (in[i].k < ck[c]);
          else if (cf[c] == 1) o = (in[i].v > cv[c]) - (in[i].v < cv[c]);
          else if (cf[c] == 2) o = std::string(kStr[in[i].s]).compare("alpha") < 0 ? -1 : in[i].s == 0 ? 0 : 1;
          else o = (int)in[i].b - 1;
          keep &= rel(co[c], o);
        }
        if (!keep) continue;
        if (at < got.rows.size()) ok &= same(got, at, in[i]);
        ++at;
      }
      vp_assert(at == got.rows.size() && ok, "a query returns exactly the rows that meet its conditions");
      vp_reach(inj ? "one simulation of several" : nc ? "conditions" : "no conditions");
    }
    if (b2) { delete rec; delete b2; rec = NULL; }
  }
  std::remove(path.c_str());
}
