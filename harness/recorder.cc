// C15: everything recorded reaches every backend once, in order, as recorded.
#include "common.h"
using namespace vph;
static const int G = -10;
struct Want { std::string table; double x; int i; std::string s; bool inj; size_t from; };

void vp_harness() {
  warn_limit = 0;
  MemBack a, b;
  std::vector<Want> want;
  size_t b_from = 0;
  bool two = false, closed = false;
  {
    Recorder rec((unsigned)vp_choose("dump count", 1, 3));
    rec.RegisterBackend(&a);
    bool inj = true;
    int steps = vp_sym_tier() ? 6 : 4, most = vp_sym_tier() ? 3 : 2;
    for (int k = 0; k < steps; ++k) {
      int op = vp_choose("op", 0, 5);
      if (op <= 1) {
        double x = vp_double("x", -64, 64, G);
        int i = vp_int("i", -5, 5);
        Want w = {op ? "Other" : "Table", x, i, op ? "text" : "longer text that is not stored inline", inj, 0};
        Datum* d = rec.NewDatum(w.table);
        if (op) {
          d->AddVal("X", x)->AddVal("I", i)->AddVal("S", w.s)->Record();
        } else {
          std::string f1 = std::string("Fi") + "eld", f2 = "Another rather long field name";
          std::vector<int> shape(1, 3);
          d->AddVal(f1, x)->AddVal("I", i, &shape)->AddVal(f2, w.s)->Record();
          f1 = "XXXXXX"; f2 = "YYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYYY";
        }
        if (!closed) want.push_back(w);
      } else if (op == 2) {
        size_t had = a.rows.size();
        rec.Flush();
        vp_assert(had == a.rows.size() || (a.flushed_at == a.rows.size() && (!two || b.flushed_at == b.rows.size())), "what a flush delivers is flushed by every backend");
        vp_assert(closed || a.rows.size() == want.size(), "after a flush everything recorded has been delivered");
        vp_reach("flushed");
      } else if (op == 3) {
        unsigned n = vp_choose("new count", 1, most);
        rec.set_dump_count(n);
        vp_assert(rec.dump_count() == n, "the dump count is what was set");
        vp_reach("dump count changed");
      } else if (op == 4) {
        inj = !inj;
        rec.inject_sim_id(inj);
        vp_assert(rec.inject_sim_id() == inj, "injection is what was set");
        vp_reach("injection switched");
      } else if (!two) {
        rec.Flush();
        b_from = want.size();
        rec.RegisterBackend(&b);
        two = true;
        vp_reach("second backend");
      } else if (!closed) {
        size_t had = a.rows.size();
        rec.Close();
        vp_assert(had == a.rows.size() || (a.flushed_at == a.rows.size() && b.flushed_at == b.rows.size()), "what closing delivers is flushed by every backend");
        vp_assert(a.rows.size() == want.size(), "after closing everything recorded has been delivered");
        closed = true;
        vp_reach("closed");
      }
    }
    if (vp_choose("close", 0, 1)) rec.Close();
  }
  for (int n = 0; n < (two ? 2 : 1); ++n) {
    MemBack& m = n ? b : a;
    size_t from = n ? b_from : 0;
    vp_assert(m.rows.size() == want.size() - from, "every backend gets everything recorded, once");
    for (size_t i = 0; i < m.rows.size() && i + from < want.size(); ++i) {
      const Row& r = m.rows[i];
      const Want& w = want[i + from];
      size_t o = w.inj ? 1 : 0;
      vp_assert(r.table == w.table, "data arrives in the order recorded");
      vp_assert(r.vals.size() == 3 + o, "a datum arrives with exactly its values");
      if (r.vals.size() != 3 + o) continue;
      vp_assert(!w.inj || r.vals[0].first == "SimId", "the simulation's id comes first where it is injected");
      bool same = r.fields.size() == r.vals.size() && r.shapes.size() == r.vals.size();
      for (size_t k = 0; same && k < r.vals.size(); ++k)
        same = r.fields[k] == r.vals[k].first && r.shapes[k].size() == (w.table == "Table" && k == o + 1 ? 1 : 0);
      vp_assert(same, "a datum's values, names and shapes belong together");
      bool t = w.table == "Table";
      vp_assert(r.vals[o].first == (t ? "Field" : "X") && r.vals[o + 1].first == "I" && r.vals[o + 2].first == (t ? "Another rather long field name" : "S"), "a datum arrives with its field names");
      vp_assert(r.vals[o].second.cast<double>() == w.x && r.vals[o + 1].second.cast<int>() == w.i && r.vals[o + 2].second.cast<std::string>() == w.s, "a datum arrives with its values");
    }
  }
}
