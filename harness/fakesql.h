// Stand-in for the part of the SQLite C interface that cyclus uses, compiled in the symbolic build only, so that stored
// values keep their expressions and conditions are decided by the solver. It understands CREATE TABLE, INSERT, SELECT with
// conditions and ordering, and transactions; a path with any other statement is not followed. Replays use the real SQLite.
#ifndef VP_FAKESQL_H_
#define VP_FAKESQL_H_
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sqlite3.h>
#include "vp.h"
namespace fsql {
struct Val { int k; int64_t i; double d; std::string s; Val() : k(0), i(0), d(0) {} };  // 0 null 1 int 2 real 3 text 4 blob
struct Table { std::string name; std::vector<std::string> cols; std::vector<int> aff; std::vector<std::vector<Val> > rows; };  // aff: 0 none 1 int 2 real 3 text
typedef std::map<std::string, Table> Store;
struct Db { Store* st; Store saved; bool txn; std::string err; int open; std::string path; };
inline std::map<std::string, Store*>& files() { static std::map<std::string, Store*> f; return f; }
inline void unsupported() { vp_sym_assume(false); }
inline std::string low(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; return s; }
struct Tok { int k; std::string s; };  // 0 end 1 word 2 string 3 number 4 symbol 5 quoted name
inline bool lex(const std::string& q, std::vector<Tok>* out) {
  size_t i = 0;
  while (i < q.size()) {
    char c = q[i];
    if (c == ' ' || c == '\n' || c == '\t') { ++i; continue; }
    Tok t;
    if (c == '\'' || c == '"' || c == '`' || c == '[') {
      char e = c == '[' ? ']' : c;
      size_t j = i + 1;
      for (; j < q.size(); ++j) {
        if (q[j] == e) { if (j + 1 < q.size() && q[j + 1] == e && e != ']') { t.s += e; ++j; continue; } break; }
        t.s += q[j];
      }
      if (j >= q.size()) return false;
      t.k = c == '\'' ? 2 : 5;
      i = j + 1;
    } else if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_') {
      while (i < q.size() && (isalnum((unsigned char)q[i]) || q[i] == '_')) t.s += q[i++];
      t.k = 1;
    } else if (c >= '0' && c <= '9') {
      while (i < q.size() && (isalnum((unsigned char)q[i]) || q[i] == '.')) t.s += q[i++];
      t.k = 3;
    } else {
      t.k = 4;
      t.s = std::string(1, c);
      if (i + 1 < q.size()) { std::string two = q.substr(i, 2); if (two == "<=" || two == ">=" || two == "!=" || two == "<>" || two == "==") t.s = two; }
      i += t.s.size();
    }
    out->push_back(t);
  }
  Tok e; e.k = 0;
  out->push_back(e);
  return true;
}
struct Operand { int param; Val lit; Operand() : param(0) {} };
struct Where { int col; std::string op; Operand v; };
struct Stmt {
  Db* db; int kind;  // 0 nothing 1 begin 2 commit 3 rollback 4 create 5 insert 6 select 7 select from sqlite_master
  Table made; bool ifnot;
  std::string tbl;
  std::vector<Operand> vals; std::vector<int> cols;
  std::vector<Where> where; std::vector<std::pair<int, bool> > order; int nparam;
  std::map<int, Val> bound;
  std::vector<std::vector<Val> > res; size_t at; bool ran;
};
inline int affinity(const std::string& t) {
  std::string l = low(t);
  if (l.find("int") != std::string::npos) return 1;
  if (l.find("char") != std::string::npos || l.find("text") != std::string::npos || l.find("clob") != std::string::npos) return 3;
  if (l.empty() || l.find("blob") != std::string::npos) return 0;
  return 2;
}
inline Val conv(Val v, int aff) {
  if (aff == 1 && v.k == 3) { char* e; long x = strtol(v.s.c_str(), &e, 10); if (*e) unsupported(); Val w; w.k = 1; w.i = x; return w; }
  if (aff == 1 && v.k == 2) unsupported();
  if (aff == 2 && v.k == 1) { Val w; w.k = 2; w.d = (double)v.i; return w; }
  if (aff == 2 && v.k == 3) unsupported();
  if (aff == 3 && (v.k == 1 || v.k == 2)) unsupported();
  return v;
}
// less, equal, greater: -1, 0, 1; blobs after text after numbers
inline int order(const Val& a, const Val& b) {
  if (a.k <= 2 && b.k <= 2 && a.k && b.k) {
    if (a.k == 1 && b.k == 1) return (a.i > b.i) - (a.i < b.i);
    double x = a.k == 1 ? (double)a.i : a.d, y = b.k == 1 ? (double)b.i : b.d;
    return (x > y) - (x < y);
  }
  int ra = a.k == 0 ? 0 : a.k <= 2 ? 1 : a.k, rb = b.k == 0 ? 0 : b.k <= 2 ? 1 : b.k;
  if (ra != rb) return ra < rb ? -1 : 1;
  int c = a.s.compare(b.s);
  return c < 0 ? -1 : c > 0 ? 1 : 0;
}
struct Parser {
  std::vector<Tok> t; size_t p; Stmt* s;
  bool word(const char* w) { if (t[p].k == 1 && low(t[p].s) == w) { ++p; return true; } return false; }
  bool sym(const char* w) { if (t[p].k == 4 && t[p].s == w) { ++p; return true; } return false; }
  bool name(std::string* o) {
    static const char* kw[] = {"select", "from", "where", "table", "values", "insert", "into", "and", "order", "create", "group", "index"};
    if (t[p].k == 5) { *o = t[p++].s; return true; }
    if (t[p].k != 1) return false;
    for (size_t i = 0; i < sizeof kw / sizeof *kw; ++i) if (low(t[p].s) == kw[i]) return false;
    *o = t[p++].s;
    return true;
  }
  bool operand(Operand* o) {
    if (sym("?")) { o->param = ++s->nparam; return true; }
    bool neg = sym("-");
    if (t[p].k == 2) { o->lit.k = 3; o->lit.s = t[p++].s; return true; }
    if (t[p].k == 3) {
      if (t[p].s.find('.') != std::string::npos) { o->lit.k = 2; o->lit.d = atof(t[p].s.c_str()) * (neg ? -1 : 1); }
      else { o->lit.k = 1; o->lit.i = atol(t[p].s.c_str()) * (neg ? -1 : 1); }
      ++p;
      return true;
    }
    return false;
  }
  bool end() { while (sym(";")) {} return t[p].k == 0; }
  int col(Table& tb, const std::string& n) { for (size_t i = 0; i < tb.cols.size(); ++i) if (low(tb.cols[i]) == low(n)) return i; return -1; }
  bool parse() {  // false: an error in the statement
    s->nparam = 0; s->kind = 0; s->at = 0; s->ran = false; s->ifnot = false;
    Store& st = *s->db->st;
    if (word("pragma")) return true;
    if (word("begin")) { while (t[p].k == 1) ++p; s->kind = 1; return end(); }
    if (word("commit") || word("end")) { while (t[p].k == 1) ++p; s->kind = 2; return end(); }
    if (word("rollback")) { while (t[p].k == 1) ++p; s->kind = 3; return end(); }
    if (word("create")) {
      if (!word("table")) { unsupported(); return false; }
      if (word("if")) { if (!word("not") || !word("exists")) return false; s->ifnot = true; }
      s->kind = 4;
      if (!name(&s->made.name) || !sym("(")) return false;
      do {
        std::string c, ty;
        if (!name(&c)) return false;
        while (t[p].k == 1) ty += t[p++].s + " ";
        if (col(s->made, c) >= 0) return false;
        s->made.cols.push_back(c); s->made.aff.push_back(affinity(ty));
      } while (sym(","));
      if (!sym(")") || !end()) return false;
      return s->ifnot || !st.count(low(s->made.name));
    }
    if (word("insert")) {
      if (!word("into")) { unsupported(); return false; }
      s->kind = 5;
      if (!name(&s->tbl)) return false;
      if (!st.count(low(s->tbl))) return false;
      Table& tb = st[low(s->tbl)];
      if (sym("(")) {
        do { std::string c; if (!name(&c)) return false; int k = col(tb, c); if (k < 0) return false; s->cols.push_back(k); } while (sym(","));
        if (!sym(")")) return false;
      } else for (size_t i = 0; i < tb.cols.size(); ++i) s->cols.push_back(i);
      if (!word("values") || !sym("(")) return false;
      do { Operand o; if (!operand(&o)) { unsupported(); return false; } s->vals.push_back(o); } while (sym(","));
      if (!sym(")")) { unsupported(); return false; }
      if (sym(",")) unsupported();
      return end() && s->vals.size() == s->cols.size();
    }
    if (!word("select")) { unsupported(); return false; }
    std::vector<std::string> want;
    bool all = sym("*");
    if (!all) do { std::string c; if (!name(&c)) { unsupported(); return false; } want.push_back(c); } while (sym(","));
    if (!word("from")) { unsupported(); return false; }
    if (!name(&s->tbl)) return false;
    s->kind = 6;
    if (low(s->tbl) == "sqlite_master") {
      s->kind = 7;
      if (all || want.size() != 1 || low(want[0]) != "name") unsupported();
      return true;
    }
    if (!st.count(low(s->tbl))) return false;
    Table& tb = st[low(s->tbl)];
    if (all) for (size_t i = 0; i < tb.cols.size(); ++i) s->cols.push_back(i);
    else for (size_t i = 0; i < want.size(); ++i) { int k = col(tb, want[i]); if (k < 0) return false; s->cols.push_back(k); }
    if (word("where")) do {
      Where w; std::string c;
      if (!name(&c)) { if (t[p].k == 0 || (t[p].k == 4 && t[p].s == ";")) return false; unsupported(); return false; }
      w.col = col(tb, c);
      if (w.col < 0) return false;
      if (t[p].k != 4) { unsupported(); return false; }
      w.op = t[p++].s;
      if (w.op == "=") w.op = "==";
      if (w.op == "<>") w.op = "!=";
      if (w.op != "==" && w.op != "!=" && w.op != "<" && w.op != ">" && w.op != "<=" && w.op != ">=") return false;
      if (!operand(&w.v)) { unsupported(); return false; }
      s->where.push_back(w);
    } while (word("and"));
    if (word("order")) {
      if (!word("by")) return false;
      do {
        std::string c;
        if (!name(&c)) { unsupported(); return false; }
        int k = low(c) == "rowid" ? -1 : col(tb, c);
        if (k < 0 && low(c) != "rowid") return false;
        bool desc = word("desc");
        if (!desc) word("asc");
        s->order.push_back(std::make_pair(k, desc));
      } while (sym(","));
    }
    if (!end()) { unsupported(); return false; }
    return true;
  }
};
inline Val value(Stmt* s, const Operand& o) { if (!o.param) return o.lit; std::map<int, Val>::iterator it = s->bound.find(o.param); return it == s->bound.end() ? Val() : it->second; }
inline int run(Stmt* s) {
  Db* db = s->db;
  Store& st = *db->st;
  switch (s->kind) {
    case 1: if (db->txn) { db->err = "cannot start a transaction within a transaction"; return SQLITE_ERROR; } db->txn = true; db->saved = st; return SQLITE_DONE;
    case 2: if (!db->txn) { db->err = "cannot commit - no transaction is active"; return SQLITE_ERROR; } db->txn = false; return SQLITE_DONE;
    case 3: if (!db->txn) { db->err = "cannot rollback - no transaction is active"; return SQLITE_ERROR; } db->txn = false; st = db->saved; return SQLITE_DONE;
    case 4:
      if (st.count(low(s->made.name))) { if (s->ifnot) return SQLITE_DONE; db->err = "table already exists"; return SQLITE_ERROR; }
      st[low(s->made.name)] = s->made;
      return SQLITE_DONE;
    case 5: {
      Store::iterator it = st.find(low(s->tbl));
      if (it == st.end()) { db->err = "no such table"; return SQLITE_ERROR; }
      std::vector<Val> row(it->second.cols.size());
      for (size_t i = 0; i < s->vals.size(); ++i) row[s->cols[i]] = conv(value(s, s->vals[i]), it->second.aff[s->cols[i]]);
      it->second.rows.push_back(row);
      return SQLITE_DONE;
    }
    case 6: case 7: {
      if (!s->ran) {
        s->ran = true; s->at = 0; s->res.clear();
        if (s->kind == 7) {
          for (Store::iterator it = st.begin(); it != st.end(); ++it) { Val v; v.k = 3; v.s = it->second.name; s->res.push_back(std::vector<Val>(1, v)); }
        } else {
          Table& tb = st[low(s->tbl)];
          std::vector<std::vector<Val> > keep;
          for (size_t r = 0; r < tb.rows.size(); ++r) {
            bool ok = true;
            for (size_t w = 0; w < s->where.size() && ok; ++w) {
              Where& c = s->where[w];
              Val v = value(s, c.v), x = tb.rows[r][c.col];
              if (!v.k || !x.k) { ok = false; break; }
              if ((tb.aff[c.col] == 1 || tb.aff[c.col] == 2) && v.k == 3) v = conv(v, tb.aff[c.col]);
              if (tb.aff[c.col] == 3) v = conv(v, 3);
              int o = order(x, v);
              ok = c.op == "==" ? o == 0 : c.op == "!=" ? o != 0 : c.op == "<" ? o < 0 : c.op == ">" ? o > 0 : c.op == "<=" ? o <= 0 : o >= 0;
            }
            if (ok) keep.push_back(tb.rows[r]);
          }
          for (size_t k = s->order.size(); k-- > 0;) {
            int c = s->order[k].first; bool desc = s->order[k].second;
            if (c < 0) { if (desc || s->order.size() > 1) unsupported(); continue; }
            for (size_t i = 1; i < keep.size(); ++i)
              for (size_t j = i; j > 0; --j) {
                int o = order(keep[j - 1][c], keep[j][c]);
                if (desc ? o < 0 : o > 0) std::swap(keep[j - 1], keep[j]); else break;
              }
          }
          for (size_t r = 0; r < keep.size(); ++r) {
            std::vector<Val> row;
            for (size_t i = 0; i < s->cols.size(); ++i) row.push_back(keep[r][s->cols[i]]);
            s->res.push_back(row);
          }
        }
      }
      if (s->at < s->res.size()) { s->at++; return SQLITE_ROW; }
      s->ran = false;
      return SQLITE_DONE;
    }
  }
  return SQLITE_DONE;
}
inline Val* cell(sqlite3_stmt* st, int c) {
  Stmt* s = (Stmt*)st;
  static Val null;
  if (!s->at || s->at > s->res.size() || c < 0 || c >= (int)s->res[s->at - 1].size()) { null = Val(); return &null; }
  return &s->res[s->at - 1][c];
}
inline int bind(sqlite3_stmt* st, int i, const Val& v) {
  Stmt* s = (Stmt*)st;
  if (i < 1 || i > s->nparam) { s->db->err = "column index out of range"; return SQLITE_RANGE; }
  s->bound[i] = v;
  return SQLITE_OK;
}
}  // namespace fsql
extern "C" {
int sqlite3_open(const char* path, sqlite3** out) {
  fsql::Db* d = new fsql::Db();
  std::string p(path);
  d->path = p; d->txn = false;
  if (p == ":memory:" || p.empty()) d->st = new fsql::Store();
  else { if (!fsql::files().count(p)) fsql::files()[p] = new fsql::Store(); d->st = fsql::files()[p]; }
  *out = (sqlite3*)d;
  return SQLITE_OK;
}
int sqlite3_open_v2(const char* path, sqlite3** out, int, const char*) { return sqlite3_open(path, out); }
int sqlite3_close(sqlite3* h) { fsql::Db* d = (fsql::Db*)h; if (d->open) return SQLITE_BUSY; if (d->txn) *d->st = d->saved; delete d; return SQLITE_OK; }
int sqlite3_close_v2(sqlite3* h) { return sqlite3_close(h); }
const char* sqlite3_errmsg(sqlite3* h) { return ((fsql::Db*)h)->err.c_str(); }
int sqlite3_prepare_v2(sqlite3* h, const char* sql, int, sqlite3_stmt** out, const char**) {
  fsql::Stmt* s = new fsql::Stmt();
  s->db = (fsql::Db*)h;
  fsql::Parser p;
  p.p = 0; p.s = s;
  *out = NULL;
  if (!fsql::lex(sql, &p.t) || !p.parse()) { s->db->err = "error in statement"; delete s; return SQLITE_ERROR; }
  s->db->open++;
  *out = (sqlite3_stmt*)s;
  return SQLITE_OK;
}
int sqlite3_step(sqlite3_stmt* st) { return fsql::run((fsql::Stmt*)st); }
int sqlite3_reset(sqlite3_stmt* st) { fsql::Stmt* s = (fsql::Stmt*)st; s->ran = false; s->at = 0; return SQLITE_OK; }
int sqlite3_clear_bindings(sqlite3_stmt* st) { ((fsql::Stmt*)st)->bound.clear(); return SQLITE_OK; }
int sqlite3_finalize(sqlite3_stmt* st) { if (st) { ((fsql::Stmt*)st)->db->open--; delete (fsql::Stmt*)st; } return SQLITE_OK; }
int sqlite3_column_count(sqlite3_stmt* st) { return ((fsql::Stmt*)st)->cols.size(); }
int sqlite3_column_type(sqlite3_stmt* st, int c) { static const int ty[] = {SQLITE_NULL, SQLITE_INTEGER, SQLITE_FLOAT, SQLITE_TEXT, SQLITE_BLOB}; return ty[fsql::cell(st, c)->k]; }
int sqlite3_column_int(sqlite3_stmt* st, int c) { fsql::Val* v = fsql::cell(st, c); return v->k == 1 ? (int)v->i : v->k == 2 ? (int)v->d : v->k == 3 ? atoi(v->s.c_str()) : 0; }
sqlite3_int64 sqlite3_column_int64(sqlite3_stmt* st, int c) { fsql::Val* v = fsql::cell(st, c); return v->k == 1 ? v->i : v->k == 2 ? (int64_t)v->d : v->k == 3 ? atol(v->s.c_str()) : 0; }
double sqlite3_column_double(sqlite3_stmt* st, int c) { fsql::Val* v = fsql::cell(st, c); return v->k == 2 ? v->d : v->k == 1 ? (double)v->i : v->k == 3 ? atof(v->s.c_str()) : 0; }
const unsigned char* sqlite3_column_text(sqlite3_stmt* st, int c) {
  fsql::Val* v = fsql::cell(st, c);
  if (v->k == 0) return NULL;
  if (v->k < 3) { v->s = v->k == 1 ? std::to_string(v->i) : std::to_string(v->d); if (v->k == 2) fsql::unsupported(); v->k = 3; }
  return (const unsigned char*)v->s.c_str();
}
const void* sqlite3_column_blob(sqlite3_stmt* st, int c) { fsql::Val* v = fsql::cell(st, c); if (v->k == 0 || v->s.empty()) return NULL; return v->s.data(); }
int sqlite3_column_bytes(sqlite3_stmt* st, int c) { sqlite3_column_text(st, c); return fsql::cell(st, c)->s.size(); }
int sqlite3_bind_int(sqlite3_stmt* st, int i, int x) { fsql::Val v; v.k = 1; v.i = x; return fsql::bind(st, i, v); }
int sqlite3_bind_int64(sqlite3_stmt* st, int i, sqlite3_int64 x) { fsql::Val v; v.k = 1; v.i = x; return fsql::bind(st, i, v); }
int sqlite3_bind_double(sqlite3_stmt* st, int i, double x) { fsql::Val v; if (x == x) { v.k = 2; v.d = x; } return fsql::bind(st, i, v); }
int sqlite3_bind_text(sqlite3_stmt* st, int i, const char* x, int n, void (*)(void*)) { fsql::Val v; if (x) { v.k = 3; v.s = n < 0 ? std::string(x) : std::string(x, n); } return fsql::bind(st, i, v); }
int sqlite3_bind_blob(sqlite3_stmt* st, int i, const void* x, int n, void (*)(void*)) { fsql::Val v; if (x) { v.k = 4; v.s = std::string((const char*)x, n); } return fsql::bind(st, i, v); }
int sqlite3_bind_null(sqlite3_stmt* st, int i) { return fsql::bind(st, i, fsql::Val()); }
int sqlite3_exec(sqlite3* h, const char* sql, int (*cb)(void*, int, char**, char**), void*, char** err) {
  if (cb) fsql::unsupported();
  if (err) *err = NULL;
  sqlite3_stmt* st;
  int r = sqlite3_prepare_v2(h, sql, -1, &st, NULL);
  if (r != SQLITE_OK) return r;
  while ((r = sqlite3_step(st)) == SQLITE_ROW) {}
  sqlite3_finalize(st);
  return r == SQLITE_DONE ? SQLITE_OK : r;
}
int sqlite3_changes(sqlite3*) { fsql::unsupported(); return 0; }
sqlite3_int64 sqlite3_last_insert_rowid(sqlite3*) { fsql::unsupported(); return 0; }
int sqlite3_get_autocommit(sqlite3* h) { return !((fsql::Db*)h)->txn; }
int sqlite3_errcode(sqlite3*) { return SQLITE_ERROR; }
int sqlite3_busy_timeout(sqlite3*, int) { return SQLITE_OK; }
void sqlite3_free(void* p) { free(p); }
}
#endif
