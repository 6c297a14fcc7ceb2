// C26: what a material query reports; ENRICH: what enriching uranium takes (C33).
#include "common.h"
#include "comp_math.h"
#include "pyne.h"
#include "toolkit/enrichment.h"
#include "toolkit/mat_query.h"
using namespace vph;
using toolkit::MatQuery;
static const int kNuc[] = {922350000, 922380000, 942390000, 10010000};
static const double kComps[][3] = {{1, 3, 0}, {0, 1, 1}, {2, 0, 0}, {1, 2, 1}, {0, 0, 1}, {1, 0, 2000}, {2000, 3, 0.001}};
static CompMap cmap(const double* v) {
  CompMap c;
  for (int i = 0; i < 3; ++i) if (v[i] > 0) c[kNuc[i]] = v[i];
  return c;
}
#ifdef ENRICH
void vp_harness() {
  pyne::atomic_mass(kNuc[0]);
  int what = vp_choose("what", 0, 3);
  if (what == 0) {
    // any product, any assays on a grid
    double q = vp_double("product", 0, 64, -4);
    const int D = vp_sym_tier() ? 6 : 4;
    double p = vp_double("product assay", 0, 1, -D), f = vp_double("feed assay", 0, 1, -D), t = vp_double("tails assay", 0, 1, -D);
    vp_assume((t < f) & (f <= p));
    toolkit::Assays a(f, p, t);
    vp_assert((a.Feed() == f) & (a.Product() == p) & (a.Tails() == t), "assays are as given");
    double fq = toolkit::FeedQty(q, a), tq = toolkit::TailsQty(q, a);
    vp_assert((fq >= q - 1e-9) & (tq >= 0), "feed exceeds product, and tails are not negative");
    vp_assert(near(fq * (f - t), q * (p - t), 1e-9), "the feed is what product and assays require");
    vp_assert(near(fq, q + tq, 1e-6), "feed is product and tails");
    vp_reach("balance");
  } else if (what == 1) {
    double x = vp_double("fraction", -2, 2, -6);
    Out o = attempt([&] { toolkit::ValueFunc(vp_sym_pin((int)(x * 64)) / 64.); });
    vp_assert((o == VALUE) == ((x < 0) | (x >= 1)), "the value function is refused exactly outside [0,1)");
    vp_reach(o == OK ? "value" : "refused");
  } else if (what == 2) {  // any uranium, also traces of it
    double a = vp_double("U-235", 0, 1, -20), b = vp_double("U-238", 0, 1, -20), c = 2 - a - b;
    CompMap cm;
    cm[kNuc[0]] = a; cm[kNuc[1]] = b; cm[kNuc[2]] = c;
    Material::Ptr m = Material::CreateUntracked(1, Composition::CreateFromMass(cm));
    double got = toolkit::UraniumAssayMass(m);
    vp_assert(near(got * (a + b), a, 1e-9) & ((a + b > 0) | (got == 0)), "the assay by mass is the share of U-235 in the uranium");
    vp_reach("any uranium");
  } else {
    double q = vp_double("quantity", 0, 64, -6);
    int k = vp_choose("composition", 0, 6);
    bool byatom = vp_choose("by atom", 0, 1);
    Material::Ptr m = Material::CreateUntracked(q, byatom ? Composition::CreateFromAtom(cmap(kComps[k])) : Composition::CreateFromMass(cmap(kComps[k])));
    double u = kComps[k][0] + kComps[k][1], want = u > 0 ? kComps[k][0] / u : 0;
    double s = u + kComps[k][2];
    if (byatom) {
      vp_assert(near(toolkit::UraniumAssayAtom(m), want, 1e-12) && near(toolkit::UraniumAssay(m), want, 1e-12), "the assay by atoms is the share of U-235 in the uranium");
    } else {
      vp_assert(near(toolkit::UraniumAssayMass(m), want, 1e-12), "the assay by mass is the share of U-235 in the uranium");
      vp_assert(near(toolkit::UraniumQty(m), q * (u / s), 1e-9), "the uranium is its share of the material");
    }
    vp_reach("assay");
  }
}
#else
void vp_harness() {
  pyne::atomic_mass(kNuc[0]);
  int what = vp_choose("what", 0, 3);
  double q = vp_double("quantity", 0, 64, -6);
  if (what == 0) {  // fractions of an arbitrary mixture
    double s = vp_choose("total", 1, 3);
    double a = vp_double("a", 0, 3, -4), b = vp_double("b", 0, 3, -4), c = s - a - b;
    vp_assume(c >= 0);
    double v[] = {a, b, c};
    CompMap cm;
    for (int i = 0; i < 3; ++i) cm[kNuc[i]] = v[i];
    MatQuery mq(Material::CreateUntracked(q, Composition::CreateFromMass(cm)));
    vp_assert(mq.qty() == q, "the quantity is that of the material");
    for (int i = 0; i < 3; ++i) {
      vp_assert(near(mq.mass_frac(kNuc[i]) * s, v[i], 1e-9), "the mass fraction of a nuclide is its share of the mass");
      vp_assert(near(mq.mass(kNuc[i]) * s, v[i] * q, 1e-6), "the mass of a nuclide is its share of the material");
    }
    vp_assert(mq.mass_frac(kNuc[3]) == 0 && mq.mass(kNuc[3]) == 0, "there is nothing of a nuclide that is not there");
    vp_reach("fractions");
  } else if (what == 1) {  // sets, moles and atom fractions
    int k = vp_choose("composition", 0, 6);
    double s = 0, at = 0, am[4];
    for (int i = 0; i < 4; ++i) am[i] = pyne::atomic_mass(kNuc[i]);
    for (int i = 0; i < 3; ++i) { s += kComps[k][i]; at += kComps[k][i] / am[i]; }
    MatQuery mq(Material::CreateUntracked(q, Composition::CreateFromMass(cmap(kComps[k]))));
    int set = vp_choose("set", 0, 15);
    std::set<Nuc> ns;
    double wm = 0, wa = 0;
    for (int i = 0; i < 4; ++i) if (set >> i & 1) {
      ns.insert(kNuc[i]);
      if (i < 3) { wm += kComps[k][i] / s; wa += kComps[k][i] / am[i] / at; }
    }
    vp_assert(near(mq.mass_frac(ns), wm, 1e-9), "the mass fraction of several nuclides is the sum of theirs");
    vp_assert(near(mq.atom_frac(ns), wa, 1e-9), "the atom fraction of several nuclides is the sum of theirs");
    for (int i = 0; i < 4; ++i) {
      double x = i < 3 ? kComps[k][i] / s : 0;
      vp_assert(near(mq.atom_frac(kNuc[i]), i < 3 ? kComps[k][i] / am[i] / at : 0, 1e-9), "the atom fraction of a nuclide is its share of the atoms");
      vp_assert(near(mq.moles(kNuc[i]) * am[i], q * x * 1000, 1e-5), "moles are mass by molar mass");
    }
    vp_reach("sets");
  } else if (what == 2) {  // how much of one composition is in another
    int k = vp_choose("composition", 0, 6), w = vp_choose("wanted", 0, 6);
    double sk = 0, sw = 0;
    for (int i = 0; i < 3; ++i) { sk += kComps[k][i]; sw += kComps[w][i]; }
    MatQuery mq(Material::CreateUntracked(q, Composition::CreateFromMass(cmap(kComps[k]))));
    CompMap cw = cmap(kComps[w]);
    if (vp_choose("listed with nothing", 0, 1)) for (int i = 0; i < 4; ++i) cw.insert(std::make_pair(kNuc[i], 0.0));
    double got = mq.Amount(Composition::CreateFromMass(cw));
    bool fits = true, most = false;
    for (int i = 0; i < 3; ++i) {
      double have = q * (kComps[k][i] / sk), take = got * (kComps[w][i] / sw);
      fits &= take <= have + 1e-6;
      if (kComps[w][i] > 0) most |= take >= have - 1e-6;
    }
    vp_assert(fits, "no more of a composition is reported than the material holds");
    vp_assert(most, "all of a composition that the material holds is reported");
    vp_reach("amount");
  } else {  // comparing
    double a = vp_double("a", 0, 4, -4), b = vp_double("b", 0, 4, -4);
    double th = vp_choose("threshold", 0, 2) * .25;
    CompMap x, y;
    x[kNuc[0]] = a; x[kNuc[1]] = 4 - a;
    y[kNuc[0]] = b; y[kNuc[1]] = 4 - b;
    MatQuery mq(Material::CreateUntracked(q, Composition::CreateFromMass(x)));
    bool eq = mq.AlmostEq(Material::CreateUntracked(vp_choose("other's quantity", 0, 1), Composition::CreateFromMass(y)), th);
    // relative to the smaller of the two fractions of each nuclide; none is close to zero but zero
    double d = dabs(a - b), lo = a < b ? a : b, lo2 = 4 - (a < b ? b : a);
    bool close = (d < th * lo - 1e-6) & (d < th * lo2 - 1e-6), far = (d > th * lo + 1e-6) | (d > th * lo2 + 1e-6);
    vp_assert(!close | eq, "materials with close fractions compare as equal");
    vp_assert(!far | !eq, "materials with different fractions do not compare as equal");
    vp_reach(eq ? "equal" : "different");
  }
}
#endif
