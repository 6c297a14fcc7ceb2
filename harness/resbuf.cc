// C04: a resource buffer's books always match its contents.
#include <deque>
#include "common.h"
#include "toolkit/res_buf.h"
using namespace vph;
using cyclus::toolkit::ResBuf;
static const int G = -24;
static const double B = 512;

struct Mod { Resource::Ptr r; double q; };
template <class T> struct Mk;
template <> struct Mk<Product> { static Resource::Ptr of(double q) { return Product::CreateUntracked(q, "p"); } };
template <> struct Mk<Material> {
  static Composition::Ptr c() { static Composition::Ptr p; if (!p) { CompMap v; v[922350000] = 1; p = Composition::CreateFromMass(v); } return p; }
  static Resource::Ptr of(double q) { return Material::CreateUntracked(q, c()); }
};
static double sum(const std::deque<Mod>& m) { double s = 0; for (size_t i = 0; i < m.size(); ++i) s += m[i].q; return s; }

static std::vector<Resource::Ptr> out;  // what has left
static void gone(std::deque<Mod>& m) { out.push_back(m.front().r); m.pop_front(); }

template <class T> static void run(bool bulk) {
  typedef typename T::Ptr P;
  ResBuf<T> b(bulk);
  std::deque<Mod> m;
  out.clear();
  double cap = vp_double("cap", 0, B, G);
  b.capacity(cap);
  int steps = vp_sym_tier() ? 5 : (bulk ? 3 : 4);
  for (int k = 0; k < steps; ++k) {
    int op = k < 2 ? vp_choose("op", 0, k == 0 ? 0 : 1) : vp_choose("op", 0, 9);
    double have = sum(m);
    std::deque<Mod> before = m;
    Out o = OK;
    std::vector<P> got;
    double want = -1;
    if (op == 0) {  // push one
      double x = vp_double("x", 0, B, G);
      Resource::Ptr r = Mk<T>::of(x);
      o = attempt([&] { b.Push(r); });
      bool fits = x - (cap - have > 0 ? cap - have : 0) <= eps_rsrc();
      vp_assert((o == OK) == fits, "a push is accepted exactly when it fits in the remaining space");
      if (o == OK) {
        vp_reach("pushed");
        if (bulk && !m.empty()) m[0].q += x; else { Mod n = {r, x}; m.push_back(n); }
      } else {
        vp_assert(o == VALUE, "an over-capacity push raises ValueError");
        vp_assert(r->quantity() == x, "a refused push leaves the resource untouched");
       
      }
    } else if (op == 1) {  // push two together: all or nothing
      double x = vp_double("x", 0, B, G), y = vp_double("y", 0, B, G);
      Resource::Ptr r = Mk<T>::of(x), s = Mk<T>::of(y);
      std::vector<P> v;
      v.push_back(boost::dynamic_pointer_cast<T>(r));
      v.push_back(boost::dynamic_pointer_cast<T>(s));
      o = attempt([&] { b.Push(v); });
      bool fits = x + y - (cap - have > 0 ? cap - have : 0) <= eps_rsrc();
      vp_assert((o == OK) == fits, "a group push is accepted exactly when all of it fits");
      if (o == OK) {
        vp_reach("pushed group");
        if (bulk) { if (m.empty()) { Mod n = {r, x + y}; m.push_back(n); } else m[0].q += x + y; }
        else { Mod n = {r, x}, n2 = {s, y}; m.push_back(n); m.push_back(n2); }
      } else {
        vp_assert((r->quantity() == x) & (s->quantity() == y), "a refused group push leaves the resources untouched");
       
      }
    } else if (op == 2 || op == 3) {  // pop a quantity
      want = vp_double("want", 0, B, G);
      if (op == 2) o = attempt([&] { got = b.PopVector(want); });
      else {
        if (want == 0) continue;
        o = attempt([&] { got.push_back(b.Pop(want)); });
      }
      vp_assert((o == OK) == (want <= have), "a quantity can be popped exactly when the buffer holds it");
      if (o == OK) {
        vp_reach("popped quantity");
        double left = want, tot = 0;
        for (size_t i = 0; i < got.size(); ++i) tot += got[i]->quantity();
        vp_assert(tot == want, "popping a quantity yields exactly that quantity");
        size_t n = 0;
        while (left > 0 && !m.empty()) {
          if (m[0].q > left) {
            if (op == 2) vp_assert(n < got.size() && got[n]->quantity() == left, "the oldest resource is split to pop the exact quantity");
            m[0].q -= left; left = 0;
          } else {
            if (op == 2) vp_assert(n < got.size() && got[n] == m[0].r && got[n]->quantity() == m[0].q, "resources leave oldest first, unsplit where possible");
            left -= m[0].q; gone(m);
          }
          ++n;
        }
        if (op == 2) vp_assert(n == got.size(), "only what was asked for leaves");
      } else {
        vp_assert(o == VALUE, "popping too much raises ValueError");
       
      }
    } else if (op == 4) {  // pop with tolerance
      want = vp_double("want", 0, B, G);
      static const double tol = 1.0 / 1024;
      if ((want <= 0) | m.empty()) continue;
      P r;
      o = attempt([&] { r = b.Pop(want, tol); });
      vp_assert((o == OK) == (want <= have + tol), "a tolerant pop fails exactly beyond the tolerance");
      if (o == OK) {
        vp_assert(r->quantity() == (want < have ? want : have), "a tolerant pop yields what was asked for, or everything");
        vp_reach("popped tolerant");
        // resources that only hold nothing may leave with it
        double left = want;
        if (want >= have) while (!m.empty()) gone(m);
        else while (left > 0 && !m.empty()) {
          if (m[0].q > left) { m[0].q -= left; left = 0; } else { left -= m[0].q; gone(m); }
        }
      }
    } else if (op == 5) {
      int n = vp_choose("n", -1, 3);
      o = attempt([&] { got = b.PopN(n); });
      vp_assert((o == OK) == (n >= 0 && n <= (int)m.size()), "a count can be popped exactly when the buffer holds that many");
      if (o == OK) {
        vp_assert((int)got.size() == n, "popping a count yields that many resources");
        for (int i = 0; i < n; ++i) {
          vp_assert(got[i] == m[0].r && got[i]->quantity() == m[0].q, "popping a count returns the oldest resources unsplit, in order");
          gone(m);
        }
        vp_reach("popped count");
      } else { vp_assert(o == VALUE, "popping too many raises ValueError"); }
    } else if (op == 6 || op == 7) {
      P r;
      o = attempt([&] { r = op == 6 ? b.Pop() : b.PopBack(); });
      vp_assert((o == OK) == !m.empty(), "one resource can be popped exactly when there is one");
      if (o == OK) {
        Mod x = op == 6 ? m.front() : m.back();
        vp_assert(r == x.r && r->quantity() == x.q, op == 6 ? "Pop returns the oldest resource" : "PopBack returns the newest resource");
        if (op == 6) gone(m); else out.push_back(m.back().r), m.pop_back();
        vp_reach("popped one");
      }
    } else if (op == 8) {
      double c2 = vp_double("newcap", 0, B, G);
      o = attempt([&] { b.capacity(c2); });
      vp_assert((o == OK) == (have - c2 <= eps_rsrc()), "capacity can be lowered exactly down to the held quantity");
      if (o == OK) { cap = c2; vp_reach("capacity changed"); }
    } else {
      if (m.empty()) {
        vp_assert(attempt([&] { b.Peek(); }) == VALUE, "peeking at an empty buffer raises ValueError");
        continue;
      }
      // pushing something already there
      int i = (int)m.size() > 1 ? vp_choose("dup", 0, (int)m.size() - 1) : 0;
      int grp = vp_choose("grp", 0, 2);
      Resource::Ptr fresh = Mk<T>::of(0);
      if (!grp) o = attempt([&] { b.Push(m[i].r); });
      else {
        std::vector<P> v;
        v.push_back(boost::dynamic_pointer_cast<T>(fresh));
        v.push_back(boost::dynamic_pointer_cast<T>(grp == 1 ? m[i].r : fresh));
        o = attempt([&] { b.Push(v); });
      }
      vp_assert(o == KEY || o == VALUE, "a resource already in the buffer, or given twice, is refused");
      vp_reach("duplicate refused");
     
    }
    double s = sum(m);
    vp_assert(b.quantity() == s, "the reported quantity is the sum of the contents");
    vp_assert(b.count() == (int)m.size(), "the reported count is the number of resources");
    vp_assert(b.empty() == m.empty(), "empty means no resources");
    vp_assert(b.capacity() == cap, "capacity is what was set");
    vp_assert(b.space() == (cap - s > 0 ? cap - s : 0), "space is capacity less quantity, never negative");
    vp_assert((b.quantity() - cap <= eps_rsrc()) | (b.quantity() - have <= eps_rsrc()), "no operation takes the quantity beyond capacity by more than the resource tolerance");
    if (!m.empty()) vp_assert(b.Peek() == m[0].r, "Peek shows the oldest resource");
  }
  // whatever has left can come back
  b.capacity(B * 64);
  for (size_t i = 0; i < out.size(); ++i) {
    double q = out[i]->quantity();
    vp_assert(attempt([&] { b.Push(out[i]); }) == OK, "a resource that has left the buffer can be pushed again");
    if (bulk && !m.empty()) m[0].q += q; else { Mod n = {out[i], q}; m.push_back(n); }
    vp_reach("came back");
  }
  // what is left comes out in order, each with its own quantity
  std::vector<P> rest = b.PopN(b.count());
  vp_assert(rest.size() == m.size(), "everything left can be popped");
  for (size_t i = 0; i < m.size(); ++i)
    vp_assert(rest[i] == m[i].r && rest[i]->quantity() == m[i].q, "contents stay in push order with their own quantities");
  vp_assert((b.quantity() == 0) & (b.count() == 0), "an emptied buffer holds nothing");
}
void vp_harness() {
#ifdef BULK
  bool bulk = true;
#else
  bool bulk = false;
#endif
#ifdef MAT
  run<Material>(bulk);
#else
  run<Product>(bulk);
#endif
}
