// Stands in for boost's mt19937 (library code): the same interface, but its draws
// are arbitrary 32-bit values when a harness asks for that, and otherwise a plain
// deterministic sequence determined by the seed.
#ifndef BOOST_RANDOM_MERSENNE_TWISTER_HPP
#define BOOST_RANDOM_MERSENNE_TWISTER_HPP
#include <stdint.h>
#include <istream>
#include <ostream>
extern "C" int64_t vp_sym_int(const char* name, int64_t lo, int64_t hi);
extern "C" double vp_sym_double(const char* name, double lo, double hi, int grid);
extern "C" void vp_sym_assume(bool c);
extern "C" int vp_draws_on;  // how many more draws are arbitrary; paths that draw more are not followed
namespace boost {
namespace random {
class mt19937 {
 public:
  typedef uint32_t result_type;
  static const bool has_fixed_range = false;
  static const uint32_t default_seed = 5489u;
  mt19937() : s_(default_seed) {}
  explicit mt19937(uint32_t v) : s_(v) {}
  static result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; }
  static result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0xffffffffu; }
  void seed() { s_ = default_seed; }
  template <class T> void seed(const T& v) { s_ = (uint32_t)v; }
  result_type operator()() {
    if (vp_draws_on) {
      vp_sym_assume(--vp_draws_on > 0);
      return (result_type)vp_sym_int("draw", 0, 0xffffffffll);
    }
    s_ += 2654435769u;  // plain enough to follow a symbolic seed
    return s_;
  }
  void discard(uintmax_t n) { while (n--) (*this)(); }
  friend std::ostream& operator<<(std::ostream& o, const mt19937& m) { return o << m.s_; }
  friend std::istream& operator>>(std::istream& i, mt19937& m) { return i >> m.s_; }
  friend bool operator==(const mt19937& a, const mt19937& b) { return a.s_ == b.s_; }
  friend bool operator!=(const mt19937& a, const mt19937& b) { return a.s_ != b.s_; }

 private:
  uint32_t s_;
};
}  // namespace random
using random::mt19937;
}  // namespace boost

// and for its normal distribution, likewise: any value within eight standard deviations
#define BOOST_RANDOM_NORMAL_DISTRIBUTION_HPP
namespace boost {
namespace random {
template <class RealType = double>
class normal_distribution {
 public:
  typedef RealType input_type;
  typedef RealType result_type;
  class param_type {
   public:
    typedef normal_distribution distribution_type;
    explicit param_type(RealType m = 0, RealType s = 1) : m_(m), s_(s) {}
    RealType mean() const { return m_; }
    RealType sigma() const { return s_; }

   private:
    RealType m_, s_;
  };
  explicit normal_distribution(const RealType& m = 0, const RealType& s = 1) : m_(m), s_(s) {}
  explicit normal_distribution(const param_type& p) : m_(p.mean()), s_(p.sigma()) {}
  RealType mean() const { return m_; }
  RealType sigma() const { return s_; }
  RealType min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return -std::numeric_limits<RealType>::infinity(); }
  RealType max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return std::numeric_limits<RealType>::infinity(); }
  param_type param() const { return param_type(m_, s_); }
  void param(const param_type& p) { m_ = p.mean(); s_ = p.sigma(); }
  void reset() {}
  template <class E> RealType operator()(E& e) {
    if (vp_draws_on) {
      vp_sym_assume(--vp_draws_on > 0);
      return m_ + s_ * vp_sym_double("normal draw", -8, 8, -16);
    }
    double u = -6;
    for (int i = 0; i < 12; ++i) u += e() / 4294967296.0;
    return m_ + s_ * u;
  }
  template <class E> RealType operator()(E& e, const param_type& p) { return normal_distribution(p)(e); }

 private:
  RealType m_, s_;
};
namespace detail {
template <class RealType = double>
struct unit_normal_distribution {
  template <class E> RealType operator()(E& e) { return normal_distribution<RealType>()(e); }
};
}  // namespace detail
}  // namespace random
using random::normal_distribution;
}  // namespace boost
#endif
