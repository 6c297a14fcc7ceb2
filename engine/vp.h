// Harness API. In the symbolic build these are implemented by the runtime
// (libvprt.so); in the replay build by replay.cc, which reads concrete values.
#ifndef VP_H_
#define VP_H_
#include <stdint.h>
extern "C" {
// arbitrary double in [lo,hi] that is a multiple of 2^grid
double vp_sym_double(const char* name, double lo, double hi, int grid);
// arbitrary integer in [lo,hi]
int64_t vp_sym_int(const char* name, int64_t lo, int64_t hi);
void vp_sym_assume(bool c);
void vp_sym_assert(bool c, const char* label);
void vp_sym_reach(const char* label);          // vacuity witness
void vp_sym_note(const char* name, double v);  // printed on replay
int vp_sym_tier();                             // 0 quick, 1 thorough
// pin a symbolic integer to each of its values in turn (one path per value)
int64_t vp_sym_pin(int64_t v);
extern int vp_draws_on;
}
// how many draws of the random number generator are arbitrary from now on (none: they follow the seed)
static inline void vp_draws_symbolic(int most) { vp_draws_on = most ? most + 1 : 0; }
static inline double vp_double(const char* n, double lo, double hi, int grid) { return vp_sym_double(n, lo, hi, grid); }
static inline int vp_int(const char* n, int lo, int hi) { return (int)vp_sym_int(n, lo, hi); }
// a choice whose value is concrete afterwards: one path per value
static inline int vp_choose(const char* n, int lo, int hi) { return (int)vp_sym_pin(vp_sym_int(n, lo, hi)); }
#define vp_assume(c) vp_sym_assume(c)
#define vp_assert(c, label) vp_sym_assert((c), (label))
#define vp_reach(l) vp_sym_reach(l)
#define vp_note(n, v) vp_sym_note(n, v)
void vp_harness();
#endif
