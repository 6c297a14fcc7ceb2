// Annotated archetypes with state variables of every kind; what is generated for
// them by the repository's preprocessor is what is checked.
#ifndef VP_ARCH_ALL_H_
#define VP_ARCH_ALL_H_
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "cyclus.h"

namespace vpa {

class Plain : public cyclus::Facility {
 public:
  Plain(cyclus::Context* ctx) : cyclus::Facility(ctx) {}
  virtual ~Plain() {}
  #pragma cyclus

  virtual void Tick() {}
  virtual void Tock() {}

  #pragma cyclus var {"doc": "a number"}
  double num;

  #pragma cyclus var {"default": 7, "doc": "an integer"}
  int whole;

  #pragma cyclus var {"default": True}
  bool flag;

  #pragma cyclus var {"alias": "other_name", "default": 2.0000152587890625}
  double renamed;

  #pragma cyclus var {"default": "none", "shape": [32]}
  std::string text;

  #pragma cyclus var {"internal": True, "default": 11}
  int hidden;

  #pragma cyclus var {"internal": True, "default": 0.5, "derived_init": "derived = num + whole;"}
  double derived;

  #pragma cyclus var {"capacity": "size"}
  cyclus::toolkit::ResBuf<cyclus::Material> mats;

  #pragma cyclus var {}
  cyclus::toolkit::ResBuf<cyclus::Product> prods;

  #pragma cyclus var {"default": 1000.0}
  double size;
};

class Nested : public cyclus::Institution {
 public:
  Nested(cyclus::Context* ctx) : cyclus::Institution(ctx) {}
  virtual ~Nested() {}
  #pragma cyclus

  #pragma cyclus var {"shape": [5]}
  std::vector<double> vd;

  #pragma cyclus var {"default": ["x", "y"]}
  std::vector<std::string> vs;

  #pragma cyclus var {"default": [1, 2]}
  std::set<int> si;

  #pragma cyclus var {"alias": ["items", "entry"], "shape": [3, -1]}
  std::list<int> li;

  #pragma cyclus var {"default": [4, 0.25]}
  std::pair<int, double> pid;

  #pragma cyclus var {"default": {"a": 1.5}}
  std::map<std::string, double> msd;

  #pragma cyclus var {"alias": [["table", "row"], "name", ["nums", "n"]]}
  std::map<std::string, std::vector<double> > msvd;

  #pragma cyclus var {"default": [[3, "three"]]}
  std::vector<std::pair<int, std::string> > vp;

  #pragma cyclus var {}
  std::map<int, std::map<std::string, double> > mm;

  #pragma cyclus var {}
  std::vector<std::vector<int> > vv;
};

class More : public cyclus::Region {
 public:
  More(cyclus::Context* ctx) : cyclus::Region(ctx) {}
  virtual ~More() {}
  #pragma cyclus

  #pragma cyclus var {"uitype": "nuclide", "default": 922350000}
  int nuc;

  #pragma cyclus var {"uitype": "nuclide", "default": "Pu239"}
  int named;

  #pragma cyclus var {"uitype": ["oneormore", "nuclide"]}
  std::vector<int> nucs;

  #pragma cyclus var {"uitype": ["oneormore", "nuclide", "double"], "default": {"U238": 0.5, 922350000: 0.25}}
  std::map<int, double> fracs;

  #pragma cyclus var {"default": [5, 3, 4]}
  std::list<int> li;

  #pragma cyclus var {"default": ["p", "q", "r"]}
  std::set<std::string> ss;

  #pragma cyclus var {"default": [6, 7]}
  std::vector<int> vi;

  #pragma cyclus var {"uitype": ["oneormore", "string", "nuclide"], "default": {"first": "Pu239"}}
  std::map<std::string, int> marks;

  #pragma cyclus var {"uitype": ["pair", "int", "nuclide"], "default": [3, "Pu240"]}
  std::pair<int, int> tagged;

  #pragma cyclus var {"internal": True, "default": [8, 9]}
  std::vector<int> kept;

  #pragma cyclus var {"default": False}
  bool off;

  #pragma cyclus var {"alias": ["pairs", "left", "right"], "default": [1, 2]}
  std::pair<int, int> pii;

  #pragma cyclus var {}
  std::map<std::string, std::pair<double, std::map<int, double> > > deep;

  #pragma cyclus var {}
  std::vector<std::pair<std::pair<double, double>, std::map<std::string, double> > > far;

  #pragma cyclus var {"default": 0}
  int zero;

  #pragma cyclus var {"default": ""}
  std::string empty;

  #pragma cyclus var {"default": 0.0, "derived_init": "last = last + zero;"}
  double last;
};

}  // namespace vpa
#endif
