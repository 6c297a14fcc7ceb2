// C05: a resource map reports the sum of what its keys hold.
#include "common.h"
#include "toolkit/res_map.h"
using namespace vph;
typedef toolkit::ResMap<int, Product> Map;
static const int G = -20;

void vp_harness() {
  warn_limit = 0;
  Map m;
  std::map<int, Product::Ptr> ref;
  bool looked = false;
  bool behind = false;  // a resource has changed unbeknown to the map
  int steps = vp_sym_tier() ? 5 : 4;
  for (int k = 0; k < steps; ++k) {
    int op = vp_choose("op", 0, k ? 11 : 0);
    bool keyed = op < 3 || op == 5 || op == 6 || op == 9;
    int key = keyed ? vp_choose("key", 0, vp_sym_tier() ? 2 : 1) : 0;
    switch (op) {
      case 0: {
        Product::Ptr p = Product::CreateUntracked(vp_double("x", 0, 256, G), "p");
        m[key] = p;
        ref[key] = p;
        behind = false;
        break;
      }
      case 1: {
        size_t n = m.erase(key);
        vp_assert(n == ref.erase(key), "erasing a key says whether it was there");
        behind = false;
        vp_reach("erase");
        break;
      }
      case 2: {
        Product::Ptr p;
        Out o = attempt([&] { p = m.Pop(key); });
        vp_assert((o == OK) == (ref.count(key) == 1), "a key can be popped exactly when it is there");
        if (o == OK) { vp_assert(p == ref[key], "popping returns the key's resource"); ref.erase(key); behind = false; vp_reach("pop"); }
        else vp_assert(o == KEY, "popping a missing key raises KeyError");
        break;
      }
      case 3: {  // through an iterator
        if (!ref.empty()) { m.erase(m.begin()); ref.erase(ref.begin()); behind = false; }
        break;
      }
      case 4: m.clear(); ref.clear(); behind = false; vp_reach("clear"); break;
      case 5: {  // the resource changes while in the map
        if (!ref.count(key)) break;
        Product::Ptr p = m[key];
        vp_assert(p == ref[key], "indexing returns the key's resource");
        behind = false;
        double x = vp_double("take", 0, 256, G);
        if (x <= p->quantity()) { p->Extract(x); vp_reach("changed in place"); }
        break;
      }
      case 6: {  // iterate and change
        for (Map::iterator it = m.begin(); it != m.end(); ++it)
          if (it->first == key) it->second->Extract(it->second->quantity());
        behind = false;
        break;
      }
      case 7: {  // save and restore by object id
        Map::obj_type ids = m.obj_ids();
        vp_assert(ids.size() == ref.size(), "one object id per key");
        std::vector<Resource::Ptr> vals = m.ResValues();
        Map m2;
        m2.obj_ids(ids);
        m2.ResValues(vals);
        bool same = m2.size() == (int)ref.size();
        for (std::map<int, Product::Ptr>::iterator i = ref.begin(); i != ref.end(); ++i) same &= m2[i->first] == i->second;
        vp_assert(same && m2.size() == (int)ref.size(), "restoring by object ids puts every resource back under its key");
        if (!behind) vp_assert(m2.quantity() == m.quantity(), "restoring keeps the quantity");
        vp_reach("restored");
        break;
      }
      case 8: {
        std::vector<Product::Ptr> v = m.Values();
        vp_assert(v.size() == ref.size(), "Values lists every resource");
        size_t i = 0;
        for (std::map<int, Product::Ptr>::iterator it = ref.begin(); it != ref.end() && i < v.size(); ++it, ++i)
          vp_assert(v[i] == it->second, "Values lists the resources in key order");
        if (ref.size() > 1) { m.erase(m.begin(), --m.end()); ref.erase(ref.begin(), --ref.end()); behind = false; }
        break;
      }
      case 9: {  // the holder of a resource changes it
        if (!ref.count(key)) break;
        Product::Ptr p = ref[key];
        p->Extract(p->quantity());
        behind = true;
        break;
      }
      case 10: {  // restored into the same map, under other keys
        Map::obj_type ids = m.obj_ids(), ids2;
        std::vector<Resource::Ptr> vals = m.ResValues();
        std::map<int, Product::Ptr> ref2;
        for (std::map<int, Product::Ptr>::iterator i = ref.begin(); i != ref.end(); ++i) {
          ids2[2 - i->first] = ids[i->first];
          ref2[2 - i->first] = i->second;
          m.Pop(i->first);
        }
        m.obj_ids(ids2);
        m.ResValues(vals);
        bool same = m.size() == (int)ref2.size();
        for (std::map<int, Product::Ptr>::iterator i = ref2.begin(); same && i != ref2.end(); ++i) same &= m[i->first] == i->second;
        vp_assert(same && m.size() == (int)ref2.size(), "restoring by object ids puts every resource back under its key");
        ref = ref2;
        behind = false;
        if (ref.size() > 1) vp_reach("restored under other keys");
        break;
      }
      default: looked = true;  // the quantity is cached from here on
    }
    if (!looked && k + 1 < steps) continue;
    looked = false;
    double s = 0;
    for (std::map<int, Product::Ptr>::iterator i = ref.begin(); i != ref.end(); ++i) s += i->second->quantity();
    double mq = m.quantity();
    // what is changed without the map being touched shows with its next change
    if (!behind) vp_assert(mq == s, "the reported quantity is the sum of the resources");
    vp_assert(m.size() == (int)ref.size(), "the size is the number of keys");
    vp_assert(m.empty() == ref.empty(), "empty means no keys");
  }
}
