// C03: composition arithmetic is nuclide-wise arithmetic.
#include "common.h"
#include "comp_math.h"
#include "cyc_arithmetic.h"
using namespace vph;
using namespace cyclus::compmath;

static const int kNuc[] = {10010000, 922350000, 922380000, 942390000};
static double at(const CompMap& v, int n) { CompMap::const_iterator i = v.find(n); return i == v.end() ? 0 : i->second; }
static CompMap arb(const char* nm, int n, int mask, double lo, double hi, int g) {
  CompMap v;
  for (int i = 0; i < n; ++i) if (mask >> i & 1) v[kNuc[i]] = vp_double(nm, lo, hi, g);
  return v;
}
static double plain(const CompMap& v) { double s = 0; for (CompMap::const_iterator i = v.begin(); i != v.end(); ++i) s += i->second; return s; }

void vp_harness() {
  int n = vp_sym_tier() ? 4 : 3;
  const int G = -16;
  switch (vp_choose("case", 0, 6)) {
    case 0: {  // add, sub: any two maps
      int ma = vp_choose("ma", 0, (1 << n) - 1), mb = vp_choose("mb", 0, (1 << n) - 1);
      CompMap a = arb("a", n, ma, -64, 64, G), b = arb("b", n, mb, -64, 64, G), a0 = a, b0 = b;
      CompMap s = Add(a, b), d = Sub(a, b);
      bool ok = true, okd = true, ops = true;
      for (int i = 0; i < n; ++i) {
        ok &= at(s, kNuc[i]) == at(a0, kNuc[i]) + at(b0, kNuc[i]);
        okd &= at(d, kNuc[i]) == at(a0, kNuc[i]) - at(b0, kNuc[i]);
        ops &= (at(a, kNuc[i]) == at(a0, kNuc[i])) & (at(b, kNuc[i]) == at(b0, kNuc[i]));
      }
      vp_assert(ok, "Add adds nuclide by nuclide");
      vp_assert(okd, "Sub subtracts nuclide by nuclide");
      vp_assert(ops, "Add and Sub leave their operands alone");
      vp_assert((int)s.size() == __builtin_popcount(ma | mb) && (int)d.size() == __builtin_popcount(ma | mb), "the result has exactly the nuclides of the operands");
      break;
    }
    case 1: {  // sum
      int ma = vp_choose("ma", 0, (1 << n) - 1);
      CompMap a = arb("a", n, ma, -64, 64, G);
      vp_assert(Sum(a) == plain(a), "Sum is the sum of the entries");
      vp_reach("sum");
      break;
    }
    case 2: {  // threshold
      int ma = vp_choose("ma", 0, (1 << n) - 1);
      CompMap a = arb("a", n, ma, -4, 4, -24);
      CompMap b = a;
      double t = vp_double("t", -1, 2, -24);
      Out o = attempt([&] { ApplyThreshold(&b, t); });
      if (o != OK) {
        vp_assert(o == VALUE && t < 0, "only a negative threshold is refused");
        vp_reach("negative threshold");
        vp_assert(b.size() == a.size(), "a refused threshold changes nothing");
        break;
      }
      vp_assert(t >= 0, "a negative threshold is refused");
      size_t kept = 0;
      bool ok = true;
      for (CompMap::iterator i = a.begin(); i != a.end(); ++i) {
        bool in = b.count(i->first);
        kept += in;
        ok &= in == (dabs(i->second) > t);
        if (in) ok &= b[i->first] == i->second;
      }
      vp_assert(ok && kept == b.size(), "ApplyThreshold removes exactly the entries not above the threshold and keeps the rest unchanged");
      vp_reach("threshold");
      break;
    }
    case 3: {  // normalize
      int ma = vp_choose("ma", 0, vp_sym_tier() ? 7 : 3);
      bool fine = vp_choose("fine", 0, 1);  // values that differ by little
      CompMap a = fine ? arb("a", 3, ma, 0, 2, -26) : arb("a", 3, ma, 0, 16, -4);
      CompMap b = a;
      double val = fine ? vp_double("val", 0, 4, -26) : vp_double("val", 0, 64, -4);
      double s = plain(a);
      Normalize(&b, val);
      bool ok = b.size() == a.size();
      for (CompMap::iterator i = a.begin(); i != a.end(); ++i) {
        if (s == 0) ok &= at(b, i->first) == i->second;
        else ok &= dabs(at(b, i->first) * s - i->second * val) <= 1e-9;
      }
      vp_assert(ok, "Normalize scales every entry by value over sum (and leaves an empty sum alone)");
      vp_reach("normalize");
      break;
    }
    case 4: {  // comparison
      int ma = vp_choose("ma", 0, 3), mb = vp_choose("mb", 0, 3);
      CompMap a = arb("a", 2, ma, -4, 4, -6), b = arb("b", 2, mb, -4, 4, -6);
      double t = vp_choose("t", -1, 2) * 0.125;
      bool r = false, r2 = false;
      Out o = attempt([&] { r = AlmostEq(a, b, t); r2 = AlmostEq(b, a, t); });
      vp_assert((o == OK) == (t >= 0), "a negative comparison threshold is refused");
      if (o != OK) break;
      bool want = ma == mb;
      for (int i = 0; i < 2; ++i) if (ma >> i & mb >> i & 1) {
        double x = a[kNuc[i]], y = b[kNuc[i]], d = dabs(x - y);
        want &= (d <= dabs(x) * t) & (d <= dabs(y) * t);
      }
      vp_assert(r == want, "AlmostEq holds exactly when the maps have the same nuclides and each pair differs by at most the relative threshold");
      vp_assert(r2 == r, "AlmostEq is symmetric");
      if (r) vp_reach("equal"); else vp_reach("different");
      break;
    }
    case 5: {  // compositions only from valid, non-negative maps
      int ma = vp_choose("ma", 0, 7);
      CompMap a = arb("a", 3, ma, -4, 4, -20);
      int bad = vp_choose("badnuc", 0, 2);
      if (bad == 1) a[-5] = 1;
      if (bad == 2) a[920000000] = 1;  // an element, not a nuclide
      bool neg = false;
      for (CompMap::iterator i = a.begin(); i != a.end(); ++i) neg |= i->second < 0;
      bool atom = vp_choose("atom", 0, 1);
      Composition::Ptr c;
      Out o = attempt([&] { c = atom ? Composition::CreateFromAtom(a) : Composition::CreateFromMass(a); });
      bool valid = ValidNucs(a);
      vp_assert(valid == (bad == 0), "a map with something that is not a nuclide is recognised");
      vp_assert(AllPositive(a) == !neg, "AllPositive detects any negative entry");
      vp_assert((o == OK) == (valid & !neg), "a composition is created exactly from valid, non-negative maps");
      if (o == OK) {
        const CompMap& g = atom ? c->atom() : c->mass();
        bool same = g.size() == a.size();
        for (CompMap::iterator i = a.begin(); i != a.end(); ++i) same &= at(g, i->first) == i->second;
        vp_assert(same, "a composition holds the entries it was created from");
        vp_reach("composition");
      } else vp_assert(o == VALUE, "an invalid composition raises ValueError");
      break;
    }
    case 6: {  // the underlying summation and sorting
      std::vector<double> v;
      int k = vp_choose("k", 0, vp_sym_tier() ? 4 : 3);
      double s = 0;
      for (int i = 0; i < k; ++i) { v.push_back(vp_double("v", -64, 64, G)); s += v.back(); }
      vp_assert(CycArithmetic::KahanSum(v) == s, "KahanSum is the sum of its input");
      std::vector<double> w = CycArithmetic::sort_ascending(v);
      bool ok = (int)w.size() == k;
      double s2 = 0, q1 = 0;
      for (int i = 0; i < k && ok; ++i) { s2 += w[i]; if (i) ok &= w[i - 1] <= w[i]; }
      vp_assert(ok & (s2 == s), "sorting yields the same values in ascending order");
      vp_reach("sorted");
    }
  }
}
