// C01: splitting, merging and packaging conserve quantity; over-extraction is refused.
#include "common.h"
#include "toolkit/res_manip.h"
using namespace vph;

static double bound() { return 1024; }
static int G = -20;

// P: 0 Material (tracked), 1 Product (tracked), 2 Material (untracked), 3 Product (untracked)
static Resource::Ptr make(int kind, Agent* a, double q, Composition::Ptr c) {
  switch (kind) {
    case 0: return Material::Create(a, q, c);
    case 1: return Product::Create(a, q, "bananas");
    case 2: return Material::CreateUntracked(q, c);
    default: return Product::CreateUntracked(q, "bananas");
  }
}
static void absorb(int kind, Resource::Ptr x, Resource::Ptr y) {
  if (kind % 2 == 0) boost::dynamic_pointer_cast<Material>(x)->Absorb(boost::dynamic_pointer_cast<Material>(y));
  else boost::dynamic_pointer_cast<Product>(x)->Absorb(boost::dynamic_pointer_cast<Product>(y));
}

void vp_harness() {
  Sim e;
  e.init();
  e.ctx->AddPackage("box", 1, 8, "first");
  HFac* f = new HFac(e.ctx);
  CompMap v; v[922350000] = 1; v[922380000] = 3;
  Composition::Ptr c = Composition::CreateFromMass(v);
  int kind = vp_choose("kind", 0, 3);
  bool mat = kind % 2 == 0;
  int nops = vp_sym_tier() ? 4 : kind < 2 ? 3 : 2;
  std::vector<Resource::Ptr> r;
  std::vector<double> q;  // the model
  double total = 0;
  for (int i = 0; i < 2; ++i) {
    double x = vp_double("qty", 0, bound(), G);
    r.push_back(make(kind, f, x, c));
    q.push_back(x);
    total += x;
  }
  for (int k = 0; k < nops; ++k) {
    static const int kExtract[] = {0, 2, 5};  // the extraction entry point varies with the step
    int op = vp_choose("op", 0, 3);
    op = op == 0 ? kExtract[(k + (int)vp_sym_tier()) % 3] : op == 1 ? 1 : op == 2 ? 3 : 4;
    int i = (int)r.size() > 2 ? vp_choose("i", 0, (int)r.size() - 1) : vp_choose("i", 0, 1);
    double x = 0;
    bool threw = false;
    Resource::Ptr out;
    if (op == 0 || op == 1 || op == 2 || op == 5) {
      x = vp_double("x", 0, 2 * bound(), G);
      try {
        if (op == 0) out = r[i]->ExtractRes(x);
        else if (op == 1) out = r[i]->PackageExtract(x, "box");
        else if (op == 5) {
          if (mat) out = boost::dynamic_pointer_cast<Material>(r[i])->ExtractComp(x, c);
          else out = boost::dynamic_pointer_cast<Product>(r[i])->Extract(x);
        } else {
          if (mat) out = boost::dynamic_pointer_cast<Material>(r[i])->ExtractQty(x);
          else out = boost::dynamic_pointer_cast<Product>(r[i])->Extract(x);
        }
      } catch (ValueError&) { threw = true; }
      double slack = (op == 1 && mat) ? eps_rsrc() : 0;
      if (threw) {
        vp_assert(x > q[i], "a feasible extraction is never refused");
        vp_reach("refused");
      } else {
        vp_assert(x - q[i] <= slack, "an extraction beyond the available quantity is refused");
        vp_assert(out != NULL, "an extraction yields a resource");
        vp_assert(out->quantity() == x, "the extracted resource has the requested quantity");
        q[i] -= x;
        r.push_back(out);
        q.push_back(x);
        vp_reach("extracted");
      }
    } else if (op == 3) {
      int j = vp_choose("j", 0, (int)r.size() - 1);
      if (i == j) continue;
      absorb(kind, r[i], r[j]);
      q[i] += q[j];
      q[j] = 0;
      vp_reach("absorbed");
    } else {
      Resource::Ptr cl = r[i]->Clone();
      vp_assert(cl->quantity() == q[i], "a clone has the quantity of its original");
      // changing the clone leaves the original alone
      if (mat) boost::dynamic_pointer_cast<Material>(cl)->ExtractQty(cl->quantity());
      else boost::dynamic_pointer_cast<Product>(cl)->Extract(cl->quantity());
      vp_assert(cl->quantity() == 0, "a fully drained resource has quantity 0");
    }
    double s = 0;
    for (size_t m = 0; m < r.size(); ++m) {
      vp_assert(r[m]->quantity() == q[m], "every resource holds exactly what the operations left in it");
      s += r[m]->quantity();
    }
    vp_assert(s == total, "total quantity is conserved");
  }
  // two of them squashed, and then all of them
  Resource::Ptr two;
  if (mat) {
    std::vector<Material::Ptr> v;
    for (int m = 0; m < 2; ++m) v.push_back(boost::dynamic_pointer_cast<Material>(r[m]));
    two = toolkit::Squash(v);
  } else {
    std::vector<Product::Ptr> v;
    for (int m = 0; m < 2; ++m) v.push_back(boost::dynamic_pointer_cast<Product>(r[m]));
    two = toolkit::Squash(v);
  }
  vp_assert(two->quantity() == q[0] + q[1], "squashing two resources yields all of both");
  std::vector<Resource::Ptr> all(r.rbegin(), r.rend());
  Resource::Ptr one = toolkit::Squash(all);
  vp_assert(one->quantity() == total, "squashing resources yields all of them");
  vp_assert(kind > 1 || one->package_name() == Package::unpackaged_name(), "what is squashed is not packaged");
  for (size_t m = 0; m < r.size(); ++m) vp_assert(r[m] == one || r[m]->quantity() == 0, "squashing leaves nothing behind");
  vp_reach("squashed");
}
