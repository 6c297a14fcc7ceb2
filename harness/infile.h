// Input documents whose numbers are symbolic, and restoring agents from their records.
#ifndef VP_INFILE_H_
#define VP_INFILE_H_
#include <stdlib.h>
#include <set>
#include <string>
#include <vector>
#include <boost/algorithm/string.hpp>
#include <boost/lexical_cast.hpp>
#include "xml_parser.h"
#include "vp.h"
// A number written "@k" in an input file is the k-th value of a table; reading and
// structure of the file are the real code's, the conversion of digits is not.
static std::vector<double> dval;
static std::vector<int> ival;
namespace boost {
template <class T> T vp_lexical_cast(const char* s) { return lexical_cast<T>(s); }
template <> inline double vp_lexical_cast<double>(const char* s) { return s[0] == '@' ? dval.at(atoi(s + 1)) : lexical_cast<double>(s); }
template <> inline int vp_lexical_cast<int>(const char* s) { return s[0] == '@' ? ival.at(atoi(s + 1)) : lexical_cast<int>(s); }
template <class T> T vp_lexical_cast(const std::string& s) { return vp_lexical_cast<T>(s.c_str()); }
}  // namespace boost
#define lexical_cast vp_lexical_cast
#include "infile_tree.h"
#undef lexical_cast
#include "memq.h"
using namespace vph;
static double newd() { double x = vp_double("d", -64, 64, -10); dval.push_back(x); return x; }
static int newi() { int x = vp_int("i", -9, 9); ival.push_back(x); return x; }
// what recorded rows and the recorded inventories make of a fresh agent, the way a simulation is restored
template <class A> static void restore(A* a, Sim& e, int id) {
  e.rec.Flush();
  MemQ q;
  q.rows = e.mem.rows;
  std::vector<Cond> c;
  c.push_back(Cond("AgentId", "==", id));
  CondInjector ci(&q, c);
  PrefixInjector pa(&ci, "AgentState");
  a->Agent::InitFrom(&pa);
  PrefixInjector pi(&ci, "AgentState" + AgentSpec(a->spec()).Sanitize());
  a->InitFrom(&pi);
}
template <class A> static A* fresh(Sim& e, const std::string& spec) { A* a = new A(e.ctx); a->spec(spec); a->prototype("p"); return a; }
static void load(Agent* a, const std::string& body, int life) {
  std::stringstream ss;
  ss << "<agent><name>proto</name>" << (life >= 0 ? "<lifetime>" + boost::lexical_cast<std::string>(life) + "</lifetime>" : "") << "<config><Arch>" << body << "</Arch></config></agent>";
  boost::shared_ptr<XMLParser> parser(new XMLParser());
  parser->Init(ss);
  InfileTree tree(*parser);
  a->Agent::InfileToDb(&tree, DbInit(a, true));
  a->InfileToDb(&tree, DbInit(a));
}
static std::string str(int i) { return boost::lexical_cast<std::string>(i); }
static std::string el(const std::string& n, const std::string& b) { return "<" + n + ">" + b + "</" + n + ">"; }
// a value's text in the input: where it stands in the table
static std::string d_in(double* x) { *x = newd(); return "@" + str((int)dval.size() - 1); }
static std::string i_in(int* x) { *x = newi(); return "@" + str((int)ival.size() - 1); }

#endif
