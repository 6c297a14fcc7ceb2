// C29: random draws stay within their ranges and follow the seed.
#include "common.h"
#include "random_number_generator.h"
using namespace vph;

static void ranges() {
  RandomNumberGenerator r;
  int k = vp_choose("kind", 0, 12);
  int lo = vp_int("low", -4, 4), hi = vp_int("high", -4, 4);
  double dl = vp_double("dlow", -4, 4, -4), dh = vp_double("dhigh", -4, 4, -4);
  double v = 0;
  int i = 0;
  switch (k) {
    case 0: vp_draws_symbolic(4); v = r.random_01(); vp_assert((v >= 0) & (v < 1), "a draw from [0,1) lies in it"); break;
    case 1: case 2: {
      lo = vp_sym_pin(lo); hi = vp_sym_pin(hi);
      vp_draws_symbolic(4);
      Out o = attempt([&] { if (k == 1) i = r.random_uniform_int(lo, hi); else { UniformIntDist d(lo, hi); vp_assert(d.max() == hi, "a distribution knows its maximum"); i = d.sample(); } });
      vp_assert((o == OK) == (lo <= hi) && (o == OK || o == VALUE), "an integer range must not be empty");
      if (o == OK) vp_assert((i >= lo) & (i <= hi), "a uniform integer lies within its range"); else vp_reach("refused");
      break;
    }
    case 3: case 4: {
      vp_draws_symbolic(4);
      Out o = attempt([&] { if (k == 3) v = r.random_uniform_real(dl, dh); else { UniformDoubleDist d(dl, dh); vp_assert(d.max() == dh, "a distribution knows its maximum"); v = d.sample(); } });
      vp_assert((o == OK) == (dl < dh) && (o == OK || o == VALUE), "a range must not be empty");
      if (o == OK) vp_assert((v >= dl) & (v < dh), "a uniform draw lies within its range"); else vp_reach("refused");
      break;
    }
    case 5: case 6: {
      vp_assume(dl < dh);
      vp_draws_symbolic(3);
      if (k == 5) v = r.random_normal_real(1, 0.5, dl, dh); else { NormalDoubleDist d(1, 0.5, dl, dh); vp_assert(d.max() == dh, "a distribution knows its maximum"); v = d.sample(); }
      vp_assert((v >= dl) & (v <= dh), "a truncated normal draw lies within its limits");
      vp_reach("normal");
      break;
    }
    case 7: case 8: {
      vp_assume(lo < hi);
      vp_draws_symbolic(3);
      if (k == 7) i = r.random_normal_int(1, 0.5, lo, hi); else { NormalIntDist d(1, 0.5, lo, hi); vp_assert(d.max() == hi, "a distribution knows its maximum"); i = d.sample(); }
      vp_assert((i >= lo) & (i <= hi), "a truncated normal integer lies within its limits");
      // without any spread the draw is the mean, to the nearest integer
      double mean = vp_double("mean", -8, 8, -2);
      int j;
      if (k == 7) { v = r.random_normal_real(mean, 0, -9, 9); j = r.random_normal_int(mean, 0, -9, 9); }
      else { NormalDoubleDist d(mean, 0, -9, 9); v = d.sample(); NormalIntDist e(mean, 0, -9, 9); j = e.sample(); }
      vp_assert(v == mean, "a normal draw is about its mean");
      vp_assert((j - mean <= .5) & (mean - j <= .5), "a normal integer is the nearest to the draw");
      vp_reach("rounded");
      break;
    }
    case 9: {
      int t = vp_choose("trials", -1, 3);
      double p = vp_choose("p", -1, 5) * 0.25;
      vp_draws_symbolic(4);
      Out o = attempt([&] { BinomialIntDist d(t, p); vp_assert(d.trials() == t && d.p() == p, "a distribution knows its parameters"); i = d.sample(); });
      vp_assert((o == OK) == (t >= 1 && p >= 0 && p <= 1) && (o == OK || o == VALUE), "a binomial distribution needs a trial and a probability");
      if (o == OK) {
        vp_assert((i >= 0) & (i <= t), "successes are between none and all trials");
        vp_assert(p > 0 || i == 0, "what is impossible never succeeds");
        vp_assert(p < 1 || i == t, "what is certain always succeeds");
      } else vp_reach("refused");
      break;
    }
    case 10: {
      double p = vp_choose("p", 0, 4) * 0.25;
      vp_draws_symbolic(4);
      BinaryIntDist d(p, 7, -3);
      vp_assert(d.p() == p, "a distribution knows its parameters");
      i = d.sample();
      vp_assert((i == 7) | (i == -3), "a binary draw is one of the two choices");
      vp_assert((p > 0 || i == -3) && (p < 1 || i == 7), "a certain choice is always made");
      break;
    }
    case 11: {
      double m = vp_choose("mean", 1, 3) * 0.5;
      vp_draws_symbolic(2);
      PoissonIntDist d(m);
      vp_assert(d.mean() == m, "a distribution knows its parameters");
      i = d.sample();
      vp_assert(i >= 0, "a Poisson draw is not negative");
      break;
    }
    case 12: {
      FixedDoubleDist d(dl);
      FixedIntDist e(lo);
      vp_assert((d.sample() == dl) & (d.max() == dl) & (e.sample() == lo), "a fixed distribution always gives its value");
      vp_reach("fixed");
      break;
    }
  }
  vp_draws_symbolic(0);
}

// the same seed gives the same sequence, through a context and whatever is drawn in between
static void seeds() {
  double first[3];
  int seed = vp_int("seed", 0, 1 << 30);
  int kind = vp_choose("kind", 0, 2);
  for (int t = 0; t < 2; ++t) {
    Timer ti; Recorder rec(false);
    Context c(&ti, &rec);
    SimInfo si(3);
    si.seed = seed;
    c.InitSim(si);
    for (int k = 0; k < 3; ++k) {
      double v = kind == 0 ? c.random() : kind == 1 ? c.random_01() : c.random_uniform_real(-2, 5);
      if (t == 0) first[k] = v;
      else vp_assert(v == first[k], "the same seed gives the same sequence of draws");
    }
  }
  vp_reach("repeated");
}

void vp_harness() {
  warn_limit = 0;
  if (vp_choose("what", 0, 1)) seeds(); else ranges();
}
