// C06: the combined inventory of several buffers.
#include "common.h"
#include "toolkit/total_inv_tracker.h"
using namespace vph;
using toolkit::ResBuf;
using toolkit::TotalInvTracker;
static const int G = -20;

void vp_harness() {
  CompMap v; v[922350000] = 1;
  Composition::Ptr c = Composition::CreateFromMass(v);
  TotalInvTracker t;
  vp_assert(attempt([&] { t.quantity(); }) == VALUE, "an uninitialised tracker is refused");
  ResBuf<Material> a, b, other;
  double ca = vp_double("capa", 0, 256, G), cb = vp_double("capb", 0, 256, G);
  bool inf = vp_choose("inf", 0, 1);
  a.capacity(ca);
  if (!inf) b.capacity(cb);
  std::vector<ResBuf<Material>*> bufs;
  vp_assert(attempt([&] { t.Init(bufs, 1); }) == VALUE, "a tracker needs a buffer");
  int nb = vp_choose("buffers", 1, 2);
  bufs.push_back(&a);
  if (nb > 1) bufs.push_back(&b);
  bool ask = vp_choose("asked in between", 0, 1);
  double mx = vp_double("max", -1, 256, G);
  Out o = attempt([&] { t.Init(bufs, mx); });
  vp_assert((o == OK) == (mx > 0), "a tracker needs a positive capacity");
  if (o != OK) { vp_assert(o == VALUE, "bad capacity raises ValueError"); return; }
  int steps = vp_sym_tier() ? 4 : 3;
  double qa = 0, qb = 0;
  for (int k = 0; k < steps; ++k) {
    int op = vp_choose("op", 0, 3);
    if (op == 1 && nb == 1) vp_assume(false);
    if (op < 2) {
      double x = vp_double("x", 0, 256, G);
      ResBuf<Material>& r = op ? b : a;
      Out p = attempt([&] { r.Push(Material::CreateUntracked(x, c)); });
      if (p == OK) { (op ? qb : qa) += x; vp_reach("pushed"); }
    } else if (op == 2) {
      if (a.empty()) continue;
      qa -= a.Pop()->quantity();
      vp_reach("popped");
    } else {
      double nc = vp_double("newmax", 0, 512, G);
      Out p = attempt([&] { t.set_capacity(nc); });
      vp_assert((p == OK) == (qa + qb - nc <= eps_rsrc()), "the total capacity can be lowered exactly down to the held quantity");
      if (p == OK) { mx = nc; vp_reach("capacity changed"); } else vp_assert(p == VALUE, "too low a capacity raises ValueError");
    }
    if (!ask && k < steps - 1) continue;
    vp_assert(t.quantity() == qa + qb, "the total quantity is the sum over the buffers");
    vp_assert(t.tracker_capacity() == mx, "the tracker's own capacity is what was set");
    double all = nb > 1 ? ca + cb : ca;
    bool lim = nb == 1 || !inf;
    double cap = !lim ? mx : (all < mx ? all : mx);
    vp_assert(t.capacity() == cap, "the total capacity is the lower of the tracker's and the buffers'");
    if (lim) vp_assert(t.total_capacity_bufs() == all, "the buffers' capacity is their sum");
    double sp = cap - qa - qb > 0 ? cap - qa - qb : 0;
    vp_assert(t.space() == sp, "the total space is the total capacity less the total quantity, never negative");
    double fa = ca - qa > 0 ? ca - qa : 0;
    vp_assert(t.constrained_buf_space(&a) == (fa < sp ? fa : sp), "a buffer's space is limited by the total space");
    if (!lim) vp_assert(t.constrained_buf_space(&b) == sp, "an unlimited buffer's space is the total space");
    vp_assert(t.empty() == (qa + qb == 0), "empty means nothing in any buffer");
    vp_assert(t.num_bufs() == nb && t.buf_in_tracker(&a) && t.buf_in_tracker(&b) == (nb > 1) && !t.buf_in_tracker(&other), "the tracker knows its buffers");
  }
}
