#ifndef VP_MEMQ_H_
#define VP_MEMQ_H_
#include "common.h"
namespace vph {
// answers queries from recorded rows
class MemQ : public QueryableBackend {
 public:
  std::vector<Row> rows;
  template <class T> static bool cmp(boost::spirit::hold_any v, Cond* c, bool* ok) {
    if (v.type() != typeid(T)) return false;
    T x = v.cast<T>();
    *ok = CmpCond<T>(&x, c);
    return true;
  }
  virtual QueryResult Query(std::string table, std::vector<Cond>* conds) {
    QueryResult q;
    bool any = false;
    for (size_t i = 0; i < rows.size(); ++i) {
      if (rows[i].table != table) continue;
      const Row& r = rows[i];
      if (!any) for (size_t k = 0; k < r.vals.size(); ++k) q.fields.push_back(r.vals[k].first);
      any = true;
      bool keep = true;
      for (size_t c = 0; conds && c < conds->size() && keep; ++c) {
        Cond* co = &(*conds)[c];
        bool found = false;
        for (size_t k = 0; k < r.vals.size(); ++k) {
          if (r.vals[k].first != co->field) continue;
          boost::spirit::hold_any v = r.vals[k].second;
          bool ok = false;
          if (!cmp<int>(v, co, &ok) && !cmp<double>(v, co, &ok) && !cmp<std::string>(v, co, &ok) && !cmp<boost::uuids::uuid>(v, co, &ok))
            throw ValueError("condition on a value of an unexpected type");
          keep = ok;
          found = true;
        }
        if (!found) throw KeyError("no column " + co->field);
      }
      if (!keep) continue;
      QueryRow qrow;
      for (size_t k = 0; k < r.vals.size(); ++k) qrow.push_back(r.vals[k].second);
      q.rows.push_back(qrow);
    }
    if (!any) throw StateError("no table " + table);
    return q;
  }
  virtual std::map<std::string, DbTypes> ColumnTypes(std::string) { return std::map<std::string, DbTypes>(); }
  virtual std::list<ColumnInfo> Schema(std::string) { return std::list<ColumnInfo>(); }
  virtual std::set<std::string> Tables() {
    std::set<std::string> s;
    for (size_t i = 0; i < rows.size(); ++i) s.insert(rows[i].table);
    return s;
  }
};
}  // namespace vph
#endif
