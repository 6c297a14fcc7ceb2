// Shared scaffolding for harnesses: a simulation context with an in-memory
// recording backend, and a bare facility. Only public cyclus API is used.
#ifndef VP_COMMON_H_
#define VP_COMMON_H_
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "vp.h"
#include "cyclus.h"
#include "mock_sim.h"

namespace vph {
using namespace cyclus;

inline double dabs(double x) { return std::fabs(x); }
inline bool near(double a, double b, double tol) { return dabs(a - b) <= tol; }

struct Row {
  std::string table;
  std::vector<std::pair<std::string, boost::spirit::hold_any> > vals;
  std::vector<std::string> fields;
  std::vector<std::vector<int> > shapes;
  bool has(const std::string& f) const {
    for (size_t i = 0; i < vals.size(); ++i) if (vals[i].first == f) return true;
    return false;
  }
  template <class T> T get(const std::string& f) const {
    for (size_t i = 0; i < vals.size(); ++i)
      if (vals[i].first == f) return vals[i].second.cast<T>();
    throw KeyError("row has no field " + f);
  }
};

// Keeps every datum it is handed.
class MemBack : public RecBackend {
 public:
  MemBack() : notified(0), flushed(0), closed(0), flushed_at(0) {}
  virtual void Notify(DatumList data) {
    notified++;
    for (size_t i = 0; i < data.size(); ++i) {
      Row r;
      r.table = data[i]->title();
      const Datum::Vals& v = data[i]->vals();
      const Datum::Fields& f = data[i]->fields();
      for (size_t k = 0; k < v.size(); ++k) {
        std::string name = v[k].first ? std::string(v[k].first) : (k < f.size() ? f[k] : "");
        r.vals.push_back(std::make_pair(name, v[k].second));
      }
      r.fields = f;
      r.shapes = data[i]->shapes();
      rows.push_back(r);
    }
  }
  virtual std::string Name() { return "mem"; }
  virtual void Flush() { flushed++; flushed_at = rows.size(); }
  virtual void Close() { closed++; }
  std::vector<Row> table(const std::string& t) const {
    std::vector<Row> o;
    for (size_t i = 0; i < rows.size(); ++i) if (rows[i].table == t) o.push_back(rows[i]);
    return o;
  }
  std::vector<Row> rows;
  int notified, flushed, closed;
  size_t flushed_at;  // rows there were at the last Flush
};

class HFac : public Facility {
 public:
  HFac(Context* ctx) : Facility(ctx) { Agent::prototype("hfac"); Agent::spec("hfac_impl"); }
  virtual ~HFac() {}
  virtual Agent* Clone() { HFac* m = new HFac(context()); m->InitFrom(this); return m; }
  void InitFrom(HFac* m) { Facility::InitFrom(m); }
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
};

struct Sim {
  Timer ti;
  Recorder rec;
  MemBack mem;
  Context* ctx;
  explicit Sim(unsigned dump = 1) : rec(dump) {
    rec.RegisterBackend(&mem);
    ctx = new Context(&ti, &rec);
  }
  void init(int dur = 10) { ctx->InitSim(SimInfo(dur)); }
};
enum Out { OK = 0, VALUE, KEY, CAST, STATE, OTHER };
inline const char* outname(Out o) { static const char* n[] = {"ok", "ValueError", "KeyError", "CastError", "StateError", "other"}; return n[o]; }
// runs f and says which kind of error it raised
template <class F> Out attempt(F f) {
  try { f(); return OK; }
  catch (ValueError&) { return VALUE; }
  catch (KeyError&) { return KEY; }
  catch (CastError&) { return CAST; }
  catch (StateError&) { return STATE; }
  catch (Error&) { return OTHER; }
}
struct Quiet { Quiet() { Logger::ReportLevel() = LEV_ERROR; } };
static Quiet quiet_;
}  // namespace vph
#endif
