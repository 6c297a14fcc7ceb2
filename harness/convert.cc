// C39: an input file says the same in XML and in JSON.
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "infile.h"
#include "toolkit/infile_converters.h"
using namespace vph;
void vp_harness();

// How numbers are read and written in digits is the C and C++ libraries' business. A symbolic number is written
// with an exponent of 1000 + k in JSON, which no double has; reading it gives the k-th number. Writing a number
// with at least 17 significant digits keeps it, with p digits it gives any number that agrees in p digits.
static std::vector<double> numbers;
static bool models = false;
static std::string write(double x, int p) {
  double pw = 0.5;
  for (int i = 1; i < p && i < 17; ++i) pw /= 8;  // a little wider than the decimal digits would be
  double y = vp_double("written", -128, 128, -40), ax = x < 0 ? -x : x;
  if (p >= 17) vp_assume(y == x);
  else vp_assume((y - x <= ax * pw) & (x - y <= ax * pw));
  dval.push_back(y);
  return "@" + str((int)dval.size() - 1);
}
// libraries (the solver among them) write their own numbers
static bool ours(void* caller) {
  Dl_info a, b;
  return models && dladdr(caller, &a) && dladdr((void*)&vp_harness, &b) && a.dli_fbase == b.dli_fbase;
}
extern "C" std::ostream& _ZNSo9_M_insertIdEERSoT_(std::ostream* os, double x) {
  typedef std::ostream& (*Insert)(std::ostream*, double);
  static Insert real = (Insert)dlsym(RTLD_NEXT, "_ZNSo9_M_insertIdEERSoT_");
  if (!ours(__builtin_return_address(0))) return real(os, x);
  std::string s = write(x, (int)os->precision());
  return os->write(s.c_str(), s.size());
}
static int scan(const char* s, const char* f, va_list ap) {
  const char* e = strchr(s, 'e');
  if (!strcmp(f, "%lf") && e && atoi(e + 1) >= 1000) { *va_arg(ap, double*) = numbers.at(atoi(e + 1) - 1000); return 1; }
  return vsscanf(s, f, ap);
}
extern "C" int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
extern "C" int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }

// a document: elements in order, with text, a number or children
struct Node {
  std::string name, text;
  int kind;  // 0 text, 1 real number, 2 children, 3 nothing, 4 whole number
  double num;
  int whole;
  std::vector<Node> kids;
  Node(std::string n = "", int k = 3) : name(n), kind(k), num(0), whole(0) {}
};
static const char* kText[] = {"plain words", "a <b> & \"c\" 'd'", "back\\slash /", "12abc"};
static std::string xesc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) r += s[i] == '<' ? "&lt;" : s[i] == '>' ? "&gt;" : s[i] == '&' ? "&amp;" : std::string(1, s[i]);
  return r;
}
static std::string jesc(const std::string& s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '"' || s[i] == '\\') r += '\\'; r += s[i]; }
  return r + "\"";
}
static std::string digits(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
static int text0, number0, whole0;  // which of the texts and numbers comes first
static Node leaf(std::string name, int kind) {
  Node n(name, kind);
  if (kind == 0) n.text = kText[text0++ % 4];
  if (kind == 1) {
    static const double kAwkward[] = {0.1, 1.0 / 3, 1234567.125, 5e9, -2.5e-7};
    int c = models ? -1 : number0++ % 5;
    if (c < 0) { n.num = vp_double("number", -64, 64, -40); numbers.push_back(n.num); n.whole = 1000 + (int)numbers.size() - 1; }
    else { n.num = kAwkward[c]; n.whole = -1; }
  }
  if (kind == 4) { static const int kWhole[] = {0, -7, 922350000, 2147483647}; n.whole = kWhole[whole0++ % 4]; }
  return n;
}
// "config" holds leaves and repeated elements of symbolic number and kind
static Node document(bool json) {
  text0 = number0 = whole0 = vp_choose("first", 0, 4);
  Node root("simulation", 2), in("config", 2);
  int n = vp_choose("repeated", 1, 3), kind = vp_choose("kind", 0, 4);
  int empty = vp_choose("empty one", -1, n - 1);
  for (int i = 0; i < n; ++i) {
    int k = i == empty ? 3 : kind;
    if (k == 2) {
      Node c("item", 2);
      c.kids.push_back(leaf("key", 0));
      if (i != 1) c.kids.push_back(leaf("val", json ? 1 : 0));
      in.kids.push_back(c);
    } else {
      in.kids.push_back(leaf("item", k));
    }
  }
  if (vp_choose("another", 0, 1)) in.kids.push_back(leaf("alone", kind == 0 ? 1 : 0));
  root.kids.push_back(in);
  if (vp_choose("second", 0, 1)) {  // the enclosing element is repeated, too
    Node again("config", 2);
    again.kids.push_back(leaf("item", 0));
    root.kids.push_back(again);
  }
  return root;
}
static std::string xml(const Node& n) {
  std::string s = "<" + n.name + ">";
  if (n.kind == 0) s += xesc(n.text);
  if (n.kind == 1) s += digits(n.num);
  if (n.kind == 4) s += str(n.whole);
  for (size_t i = 0; i < n.kids.size(); ++i) s += xml(n.kids[i]);
  return s + "</" + n.name + ">";
}
static std::string jvalue(const Node& n);
static std::string jmembers(const Node& n) {
  std::string s = "{";
  std::vector<std::string> names;
  for (size_t i = 0; i < n.kids.size(); ++i) if (std::find(names.begin(), names.end(), n.kids[i].name) == names.end()) names.push_back(n.kids[i].name);
  for (size_t k = 0; k < names.size(); ++k) {
    std::vector<std::string> v;
    for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].name == names[k]) v.push_back(jvalue(n.kids[i]));
    s += (k ? ", \"" : "\"") + names[k] + "\": ";
    if (v.size() == 1) s += v[0];
    else { s += "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + v[i]; s += "]"; }
  }
  return s + "}";
}
static std::string jvalue(const Node& n) {
  if (n.kind == 0) return jesc(n.text);
  if (n.kind == 1) return n.whole >= 1000 ? "1.5e" + str(n.whole) : digits(n.num);
  if (n.kind == 4) return str(n.whole);
  if (n.kind == 3) return "null";
  return jmembers(n);
}
// the document an XML text holds is the given one
static void same(InfileTree* t, const Node& n) {
  std::map<std::string, int> seen;
  vp_assert(t->NElements() == (int)n.kids.size(), "every element is kept, and none added");
  for (size_t i = 0; i < n.kids.size(); ++i) {
    const Node& k = n.kids[i];
    int at = seen[k.name]++;
    vp_assert(t->NMatches(k.name) > at, "every element is kept");
    if (t->NMatches(k.name) <= at) return;
    std::string text = k.kind == 0 || k.kind == 4 ? t->GetString(k.name, at) : "";
    if (k.kind == 0) vp_assert(text == k.text, "text is kept, and the order of repeated elements");
    if (k.kind == 1) vp_assert(Query<double>(t, k.name, at) == k.num, "a number is kept to the last digit");
    if (k.kind == 4) vp_assert(text == str(k.whole), "a whole number is kept");
    InfileTree* s = t->SubTree(k.name, at);
    if (k.kind == 3) vp_assert(s->NElements() == 0, "an empty element stays empty");
    if (k.kind == 2) same(s, k);
  }
}
static void check(const std::string& text, const Node& root) {
  std::stringstream ss(text);
  boost::shared_ptr<XMLParser> parser(new XMLParser());
  Out o = attempt([&] { parser->Init(ss); });
  vp_assert(o == OK, "what is converted to XML is well-formed");
  if (o != OK) return;
  InfileTree tree(*parser);
  same(&tree, root);
}

void vp_harness() {
  dval.clear();
  numbers.clear();
  if (vp_choose("from XML", 0, 1)) {
    models = false;
    Node root = document(false);
    std::string j;
    Out o = attempt([&] { j = toolkit::XmlToJson(xml(root)); });
    vp_assert(o == OK, "every input file can be converted to JSON");
    if (o != OK) return;
    check(toolkit::JsonToXml(j), root);
    vp_reach("there and back");
  } else {
    models = vp_choose("any numbers", 0, 1);
    Node root = document(true);
    std::string x;
    Out o = attempt([&] { x = toolkit::JsonToXml("{\"simulation\": " + jvalue(root) + "}"); });
    vp_assert(o == OK, "every JSON input can be read");
    if (o != OK) return;
    models = false;
    check(x, root);
    vp_reach(root.kids.size() > 1 ? "repeated" : "read");
    vp_reach("from JSON");
  }
}
