// Decay data is generated at build time from files that are absent here; nothing
// the harnesses run may reach it.
#include <cstdlib>
#include <map>
namespace pyne { namespace decayers {
__attribute__((weak)) std::map<int, double> decay(std::map<int, double>, double) { abort(); }
} }
