// C30: decay. The matrix exponential and the decay data are not part of the
// repository: a law with the same form (exponential of a constant matrix) stands in.
#include "common.h"
#include "cram.hpp"
#include "pyne.h"
#include "toolkit/mat_query.h"
using namespace vph;
// A (Cs-137) feeds B (Ba-137) at a constant rate per atom of A and second, C is stable:
// b/a grows by kRate * seconds, so that it tells how long a composition has decayed.
static const int A = 551370000, B = 561370000, C = 922380000;
static const double kRate = 1.0 / (1 << 20);
static int nucids_[3] = {A, B, C};
static double matrix_[3] = {-kRate, -kRate, -kRate};
pyne_cram_transmute_info_t pyne_cram_transmute_info = {3, 3, NULL, NULL, NULL, nucids_, matrix_};
int pyne_cram_transmute_nucid_to_i(int n) { return n == A ? 0 : n == B ? 1 : n == C ? 2 : -1; }
static int calls;
void pyne_cram_expm_multiply14(double* m, double* b, double* x) {
  calls++;
  x[0] = b[0];
  x[1] = b[1] + b[0] * m[0];
  x[2] = b[2];
}
static double lambda_;  // per second
static void data() {
  if (!pyne::level_data_lvl_map.empty()) return;
  int n[3] = {A, B, C};
  for (int i = 0; i < 3; ++i) {
    pyne::level_data d = {n[i], 0, n[i] == A ? std::log(2.0) / lambda_ : INFINITY, 0, 0, 0, ' '};
    pyne::level_data_lvl_map[std::make_pair(n[i], 0.0)] = d;
  }
}
static double ratio(Composition::Ptr c) {
  const CompMap& m = c->atom();
  CompMap::const_iterator a = m.find(A), b = m.find(B);
  return (b == m.end() ? 0.0 : b->second) / a->second;
}
static bool close(double x, double y) { return std::fabs(x - y) <= 1e-9 * (1 + std::fabs(y)); }
static Composition::Ptr fresh(bool with_c) {
  CompMap m;
  m[A] = 1;
  if (with_c) m[C] = 3;
  return Composition::CreateFromAtom(m);
}

// decaying compositions along any route
static void chain() {
  uint64_t secs = vp_choose("step", 0, 1) ? 86400 : kDefaultTimeStepDur;
  std::vector<Composition::Ptr> cs;
  std::vector<int> age;
  cs.push_back(fresh(vp_choose("stable part", 0, 1)));
  age.push_back(0);
  int n = vp_sym_tier() ? 4 : 3;
  for (int i = 0; i < n; ++i) {
    int w = vp_choose("which", 0, (int)cs.size() - 1);
    int d = vp_int("steps", 0, 3);
    Composition::Ptr c = cs[w]->Decay(d, secs);
    int id = c->id();
    cs.push_back(c);
    age.push_back(age[w] + d);
    for (size_t k = 0; k < cs.size(); ++k) {
      vp_assert(close(ratio(cs[k]), kRate * secs * age[k]), "a composition decayed by whatever route has decayed for the sum of the times, the original for none");
      vp_assert(cs[k]->atom().count(C) == cs[0]->atom().count(C), "stable nuclides stay");
      for (size_t l = 0; l < k; ++l)
        if (age[k] != age[l]) vp_assert(cs[k]->id() != cs[l]->id(), "compositions of different age are different");
    }
    (void)id;
  }
  vp_reach("chain");
}
// one or two materials, decayed, split and merged at any time
struct M {
  Material::Ptr m;
  double q;     // quantity
  int born;     // when its composition was new
  int last;     // when it was last decayed
};
static void history() {
  int mode = vp_choose("mode", 0, 4);  // explicit time, context's time, lazy, never, no context
  bool deep = vp_sym_tier();
  uint64_t secs = (deep ? vp_choose("step", 0, 1) : mode & 1) ? kDefaultTimeStepDur / 2 : kDefaultTimeStepDur;
  Sim e;
  SimInfo si(10);
  si.dt = secs;
  si.decay = mode == 2 ? "lazy" : mode == 3 ? "never" : "manual";
  e.ctx->InitSim(si);
  HFac* f = new HFac(e.ctx);
  f->Build(NULL);
  std::vector<M> ms;
  int now = 0, n = 3;
  double q = vp_double("quantity", 0.5, 64, -4);
  Composition::Ptr c0 = fresh(false);
  { M x = {mode == 4 ? Material::CreateUntracked(q, c0) : Material::Create(f, q, c0), q, 0, 0}; ms.push_back(x); }
  for (int i = 0; i < n; ++i) {
    static const int kWait[] = {0, 1, 3, 2};
    now += kWait[i == 0 && !deep ? 2 * vp_choose("wait", 0, 1) : vp_choose("wait", 0, deep ? 3 : 2)];
    if (mode == 1 || mode == 2) { si.branch_time = now; e.ctx->InitSim(si); }
    int op = i == n - 1 ? 0 : vp_choose("op", 0, 2);
    int w = vp_choose("which", 0, (int)ms.size() - 1);
    M& x = ms[w];
    if (op == 0) {
      int sid = x.m->state_id();
      Composition::Ptr before = mode == 2 ? Composition::Ptr() : x.m->comp();
      if (mode == 2) x.m->comp();
      else if (mode == 1) x.m->Decay(-1);
      else x.m->Decay(now);
      Composition::Ptr after = x.m->comp();
      double loss = 1 - std::exp(-lambda_ * (double)secs * (now - x.last));
      if (mode == 3) {
        vp_assert(after == before && x.m->state_id() == sid, "without decay nothing changes");
      } else if (close(ratio(after), kRate * secs * (x.last - x.born)) && now != x.last) {
        vp_assert(loss < 1.01e-3, "decay is put off only as long as no nuclide changes by more than a thousandth");
        vp_assert(x.m->prev_decay_time() == x.last, "time for which decay was put off is not lost");
        vp_reach("put off");
      } else {
        vp_assert(close(ratio(after), kRate * secs * (now - x.born)), "a material decays for the time since it was last decayed");
        vp_assert(x.m->prev_decay_time() == now, "the time of the last decay is kept");
        if (now == x.last) vp_assert(x.m->state_id() == sid, "a material does not decay twice in a step");
        else { vp_assert(mode == 4 || x.m->state_id() != sid, "a decay is recorded"); vp_reach("decayed"); }
        x.last = now;
      }
    } else if (op == 1) {
      double p = vp_double("part", 0, 64, -4);
      if (p > x.q) continue;
      M y = x;
      y.m = x.m->ExtractQty(p);
      y.q = p;
      x.q -= p;
      ms.push_back(y);
      vp_reach("split");
    } else {
      x.m->Transmute(fresh(false));
      // the new composition is taken to be that of the context's time
      int at = mode == 0 || mode == 3 || mode == 4 ? 0 : now;
      if (at > x.last) x.last = at;
      x.born = x.last;
      vp_reach("transmuted");
    }
    for (size_t k = 0; k < ms.size(); ++k) {
      vp_assert(ms[k].m->quantity() == ms[k].q, "decay does not change the quantity");
      if (mode != 2) {
        vp_assert(ms[k].m->prev_decay_time() == ms[k].last, "what is split off was last decayed when the whole was");
        vp_assert(close(ratio(ms[k].m->comp()), kRate * secs * (ms[k].last - ms[k].born)), "a material has decayed for as long as it was told to, no more and no less");
      }
    }
  }
  std::vector<Row> in = e.mem.table("MaterialInfo");
  for (size_t i = 0; i < in.size(); ++i)
    for (size_t k = 0; k < ms.size(); ++k)
      if (in[i].get<int>("ResourceId") == ms[k].m->state_id() && mode != 4)
        vp_assert(in[i].get<int>("PrevDecayTime") == ms[k].m->prev_decay_time(), "the time of the last decay is recorded");
  if (mode == 4) vp_assert(attempt([&] { ms[0].m->Decay(-1); }) == VALUE, "without a context a time has to be given");
  vp_assert(mode != 3 || calls == 0, "without decay nothing changes");
  delete e.ctx;
}
// materials last decayed at different times are merged
static void merge() {
  bool lazy = vp_choose("lazy", 0, 1);
  Sim e;
  SimInfo si(10);
  si.decay = lazy ? "lazy" : "manual";
  e.ctx->InitSim(si);
  HFac* f = new HFac(e.ctx);
  f->Build(NULL);
  double q0 = vp_double("first", 0, 8, -4);
  double q1 = vp_double("second", 0, 8, -4);
  Composition::Ptr c = fresh(false);
  Material::Ptr a = Material::Create(f, q0, c), b = Material::Create(f, q1, vp_choose("same", 0, 1) ? c : fresh(true));
  int t0 = vp_choose("decayed first", 0, 4), t1 = vp_choose("decayed second", 0, 4);
  if (lazy) {
    si.branch_time = 4;
    e.ctx->InitSim(si);
  } else {
    a->Decay(t0);
    b->Decay(t1);
  }
  int pa = a->prev_decay_time(), pb = b->prev_decay_time();
  a->Absorb(b);
  vp_assert(a->quantity() == q0 + q1, "merging adds up quantities");
  if (lazy) vp_assert(a->prev_decay_time() == 4, "merged materials are brought to the present first");
  else vp_assert(a->prev_decay_time() == (q0 < q1 ? pb : pa), "merged materials count as decayed when the larger of them was");
  vp_reach("merged");
  delete e.ctx;
}
// a part of another composition is taken out
static void apart() {
  Sim e;
  SimInfo si(10);
  si.decay = "manual";
  e.ctx->InitSim(si);
  HFac* f = new HFac(e.ctx);
  f->Build(NULL);
  double q = vp_choose("whole", 1, 2) * 8;
  Material::Ptr m = Material::Create(f, q, fresh(true));
  int t0 = vp_choose("decayed", 0, 4), t1 = t0 + vp_choose("later", 0, 2);
  m->Decay(t0);
  int pm = m->prev_decay_time();
  bool same = vp_choose("same", 0, 1), late = vp_choose("present", 0, 1);
  if (late) { si.branch_time = t1; e.ctx->InitSim(si); }
  CompMap cm;
  cm[C] = 1;
  double p = vp_choose("part", 0, 2);
  Material::Ptr x = m->ExtractComp(p, same ? m->comp() : Composition::CreateFromAtom(cm));
  vp_assert(m->quantity() == q - p && x->quantity() == p, "taking a part out conserves quantity");
  vp_assert(m->prev_decay_time() == pm && x->prev_decay_time() == pm, "what is taken out was last decayed when the whole was");
  double r0 = ratio(m->comp());
  m->Decay(t1 + 4);
  if (m->prev_decay_time() == t1 + 4)
    vp_assert(close(ratio(m->comp()), r0 + kRate * kDefaultTimeStepDur * (t1 + 4 - pm)), "the remainder goes on decaying from the whole's last decay");
  vp_reach("taken out");
  delete e.ctx;
}
void vp_harness() {
  warn_limit = 0;
  calls = 0;
  lambda_ = 0.0006 / kDefaultTimeStepDur;
  data();
  switch (vp_choose("part", 0, 3)) {
    case 0: chain(); break;
    case 1: history(); break;
    case 2: apart(); break;
    default: merge();
  }
}
