// C02: mixing and splitting materials conserves the mass of every nuclide.
#include "common.h"
#include "comp_math.h"
using namespace vph;

static const int kNuc[] = {922350000, 922380000, 942390000};
static const int N = 3;
struct Masses { double v[N]; };
struct Mod { Material::Ptr m; double q; Masses c; };

static Composition::Ptr mk(double a, double b, double c) {
  CompMap v;
  if (a > 0) v[kNuc[0]] = a;
  if (b > 0) v[kNuc[1]] = b;
  if (c > 0) v[kNuc[2]] = c;
  return Composition::CreateFromMass(v);
}
static Masses massof(Composition::Ptr c) {
  Masses r; CompMap v = c->mass();
  for (int i = 0; i < N; ++i) r.v[i] = v.count(kNuc[i]) ? v[kNuc[i]] : 0;
  return r;
}
// |q * comp_i / sum(comp) - expected_i| <= tol for every nuclide, without dividing
static void check(const Mod& m, double tol, const char* label) {
  vp_assert(m.m->quantity() == m.q, "the quantity of a material is what the operations left in it");
  Masses c = massof(m.m->comp());
  double s = c.v[0] + c.v[1] + c.v[2];
  bool ok = true;
  for (int i = 0; i < N; ++i) ok &= dabs(m.q * c.v[i] - m.c.v[i] * s) <= tol * s + 1e-9;
  // a comp with no mass at all can only belong to a material without any
  ok &= (s > 0) | (m.q <= N * tol);
  vp_assert(ok, label);
}

void vp_harness() {
  Sim e;
  e.init();
  HFac* f = new HFac(e.ctx);
  const int G = -10;
  static const double kComps[4][3] = {{1, 3, 0}, {0, 1, 1}, {2, 0, 0}, {1, 2, 1}};
  std::vector<Composition::Ptr> comps;
  for (int i = 0; i < 4; ++i) comps.push_back(mk(kComps[i][0], kComps[i][1], kComps[i][2]));
  bool tracked = vp_sym_tier() ? vp_choose("tracked", 0, 1) : 1;
  double eps = eps_rsrc();
  std::vector<Mod> m;
  for (int i = 0; i < 2; ++i) {
    double q = vp_double("q", 0, 256, G);
    Mod x;
    x.q = q;
    x.m = tracked ? Material::Create(f, q, comps[i]) : Material::CreateUntracked(q, comps[i]);
    Masses c = massof(comps[i]);
    for (int k = 0; k < N; ++k) x.c.v[k] = q * (c.v[k] / (c.v[0] + c.v[1] + c.v[2]));
    m.push_back(x);
  }
  int steps = vp_sym_tier() ? 3 : 2;
  for (int k = 0; k < steps; ++k) {
    double tol = eps * (k + 1) * 2;
    int op = vp_choose("op", 0, 2);
    if (op == 0) {  // mix
      int i = vp_choose("i", 0, (int)m.size() - 1), j = vp_choose("j", 0, (int)m.size() - 1);
      if (i == j) continue;
      m[i].m->Absorb(m[j].m);
      m[i].q += m[j].q;
      m[j].q = 0;
      for (int n = 0; n < N; ++n) { m[i].c.v[n] += m[j].c.v[n]; m[j].c.v[n] = 0; }
      check(m[i], tol, "mixing adds the masses of every nuclide");
      vp_assert(m[j].m->quantity() == 0, "an absorbed material is left empty");
      vp_reach("mixed");
    } else if (op == 1) {  // take out a composition
      int i = vp_choose("i", 0, (int)m.size() - 1), ci = vp_choose("comp", 0, vp_sym_tier() ? 3 : 2);
      double x = vp_double("x", 0, 256, G);
      Masses c = massof(comps[ci]), left = m[i].c, out;
      double s = c.v[0] + c.v[1] + c.v[2];
      bool neg = false, amb = false;
      for (int n = 0; n < N; ++n) {
        out.v[n] = x * (c.v[n] / s);
        left.v[n] -= out.v[n];
        neg |= left.v[n] < -3 * tol;
        amb |= left.v[n] < 0;
      }
      CompMap before = m[i].m->comp()->mass();
      Material::Ptr r;
      Out o = attempt([&] { r = m[i].m->ExtractComp(x, comps[ci]); });
      if (o == OK) {
        vp_assert(x <= m[i].q, "no more than the available quantity can be taken");
        vp_assert(!neg, "no more of a nuclide can be taken than the material holds");
        m[i].q -= x;
        m[i].c = left;
        Mod nm; nm.m = r; nm.q = x; nm.c = out;
        check(m[i], tol, "taking a composition out leaves the difference of the masses");
        check(nm, tol, "the material taken out has the requested composition");
        m.push_back(nm);
        vp_reach("extracted");
      } else {
        vp_assert(o == VALUE, "an infeasible extraction raises ValueError");
        vp_assert((x > m[i].q) | amb, "a feasible extraction is never refused");
        check(m[i], tol, "a refused extraction leaves the material as it was");
        vp_reach("refused");
      }
    } else {  // take out a quantity of the same composition
      int i = vp_choose("i", 0, (int)m.size() - 1);
      double x = vp_double("x", 0, 256, G);
      vp_assume(x <= m[i].q);
      Composition::Ptr before = m[i].m->comp();
      Material::Ptr r = m[i].m->ExtractQty(x);
      vp_assert(r->comp() == before && m[i].m->comp() == before, "splitting by quantity keeps the composition on both sides");
      vp_assert((r->quantity() == x) & (m[i].m->quantity() == m[i].q - x), "splitting by quantity moves exactly that quantity");
      vp_reach("split");
      if (k + 1 < steps) {
        // put it back: nothing has changed
        m[i].m->Absorb(r);
        check(m[i], tol, "splitting and putting back changes nothing");
      } else break;
    }
  }
}
