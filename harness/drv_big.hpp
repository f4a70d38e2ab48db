// Conformance drivers for large containers: hundreds of thousands of elements,
// reported as runs of consecutive keys whose values have the same generation.
#pragma once
#include "drv_dense.hpp"
#include "drv_map.hpp"

namespace vh {

// ------------------------------------------------------------------- values
// BV<V>: the value of key k in generation g, and the generation read back
// (-1: not a value of key k)
template <class V>
struct BV;
template <>
struct BV<std::int64_t> {
  static std::int64_t make(int k, int g) { return (static_cast<std::int64_t>(g) << 20) + k; }
  static int gen(int k, std::int64_t v) {
    return (v & ((1 << 20) - 1)) == k && v >> 20 > 0 && v >> 20 < 1 << 20 ? static_cast<int>(v >> 20) : -1;
  }
};
template <>
struct BV<std::string> {
  static std::string make(int k, int g) {
    std::string s = std::to_string(g) + ":" + std::to_string(k);
    if (k % 2 == 0) s += " - longer than the small-string buffer";
    return s;
  }
  static int gen(int k, const std::string& s) {
    int g = std::atoi(s.c_str());
    return g > 0 && s == make(k, g) ? g : -1;
  }
};
struct Fat {
  std::int64_t v = 0, pad[7] = {};
};
template <>
struct BV<Fat> {
  static Fat make(int k, int g) {
    Fat f;
    f.v = BV<std::int64_t>::make(k, g);
    for (auto& p : f.pad) p = ~f.v;
    return f;
  }
  static int gen(int k, const Fat& f) {
    for (auto& p : f.pad)
      if (p != ~f.v) return -1;
    return BV<std::int64_t>::gen(k, f.v);
  }
};

// An order that counts its calls
struct CntLess {
  static inline long calls = 0;
  bool operator()(int a, int b) const {
    ++calls;
    return a < b;
  }
};

// An allocator that knows its live nodes
struct BigNode {
  std::size_t bytes;
  NodeDesc (*describe)(const void*);
};
struct BigNodes {
  static inline std::map<const char*, BigNode> live;
  static inline long wrong = 0;  // returned without having been obtained
};
template <class KM>
struct BigA {
  template <class T>
  struct Alloc {
    using value_type = T;
    Alloc() = default;
    template <class U>
    Alloc(const Alloc<U>&) {}
    static NodeDesc describe(const void* p) {
      NodeDesc d;
      const T& x = *static_cast<const T*>(p);
      if constexpr (requires { x.data.begin(); x.next_leaf; x.prev_leaf; x.parent; }) {
        d.kind = 0;
        d.parent = x.parent;
        for (auto it = x.data.begin(); it != x.data.end(); ++it) d.keys.push_back(KM::rank(it->first));
      } else if constexpr (requires { x.children_are_leaves; x.leaf_children.begin();
                                      x.internal_children.begin(); x.parent; }) {
        d.kind = x.children_are_leaves ? 1 : 2;
        d.parent = x.parent;
        auto each = [&](auto& ch) {
          for (auto it = ch.begin(); it != ch.end(); ++it) {
            d.keys.push_back(KM::rank(it->first));
            d.kids.push_back(it->second);
          }
        };
        if (d.kind == 1) each(x.leaf_children);
        else each(x.internal_children);
      }
      return d;
    }
    T* allocate(std::size_t n) {
      std::size_t bytes = n * sizeof(T);
      char* p = static_cast<char*>(::operator new(bytes, std::align_val_t(std::max(alignof(T), std::size_t(64)))));
      std::memset(p, 0xCD, bytes);
      BigNodes::live[p] = BigNode{bytes, &describe};
      return reinterpret_cast<T*>(p);
    }
    void deallocate(T* q, std::size_t n) {
      char* p = reinterpret_cast<char*>(q);
      auto it = BigNodes::live.find(p);
      if (it == BigNodes::live.end() || it->second.bytes != n * sizeof(T)) {
        ++BigNodes::wrong;
        return;
      }
      std::memset(p, 0xDD, it->second.bytes);
      ::operator delete(p, std::align_val_t(std::max(alignof(T), std::size_t(64))));
      BigNodes::live.erase(it);
    }
    friend bool operator==(const Alloc&, const Alloc&) { return true; }
  };
  template <class K, class V>
  using type = Alloc<std::pair<K, V>>;
  template <class K, class V>
  static type<K, V> make(int, Rng&) { return {}; }
  static constexpr bool knows = true;
};

// consecutive keys with one generation
struct RunList {
  std::vector<int> v;
  void add(int k, int g) {
    std::size_t n = v.size();
    if (n != 0 && v[n - 2] + 1 == k && v[n - 1] == g) v[n - 2] = k;
    else v.insert(v.end(), {k, k, g});
  }
  // the same elements seen in descending order
  void add_down(int k, int g) {
    std::size_t n = v.size();
    if (n != 0 && v[n - 3] - 1 == k && v[n - 1] == g) v[n - 3] = k;
    else v.insert(v.end(), {k, k, g});
  }
  void turn() {
    std::vector<int> w;
    for (std::size_t i = v.size(); i >= 3; i -= 3) w.insert(w.end(), {v[i - 3], v[i - 2], v[i - 1]});
    v = w;
  }
};

// what both drivers share
struct BigBase {
  Rng rng;
  int U, gen = 0;
  std::vector<int> order;
  BigBase(std::uint64_t seed, int u) : rng(seed), U(u) {}
  int fresh() { return gen = gen % 900 + 1; }
  // the keys lo..hi in some order
  const std::vector<int>& keys(int lo, int hi, int how) {
    order.clear();
    for (int k = lo; k <= hi; ++k) order.push_back(k);
    std::size_t n = order.size();
    if (how == 1) std::reverse(order.begin(), order.end());
    if (how == 2)
      for (std::size_t i = n; i > 1; --i)
        std::swap(order[i - 1], order[static_cast<std::size_t>(rng.below(static_cast<int>(i)))]);
    if (how == 3) {  // from both ends
      std::vector<int> o;
      for (std::size_t i = 0; i < n; ++i) o.push_back(i % 2 ? order[n - 1 - i / 2] : order[i / 2]);
      order = o;
    }
    if (how == 4) {  // every seventh, several times over
      std::vector<int> o;
      for (std::size_t j = 0; j < 7; ++j)
        for (std::size_t i = j; i < n; i += 7) o.push_back(order[i]);
      order = o;
    }
    return order;
  }
  void range(int& lo, int& hi, int most) {
    int w = rng.chance(1, 3) ? rng.in(1, 200) : rng.chance(1, 3) ? rng.in(1, most / 8 + 1) : rng.in(1, most);
    w = std::min(w, U);
    lo = rng.chance(1, 6) ? 1 : rng.chance(1, 6) ? U - w + 1 : rng.in(1, U - w + 1);
    hi = lo + w - 1;
  }
};

// -------------------------------------------------------------------- trees
template <class Cfg>
class BigTree : BigBase {
 public:
  using KM = typename Cfg::KM;
  using K = typename KM::K;
  using V = typename Cfg::V;
  using Tree = typename Cfg::Tree;
  using It = decltype(std::declval<Tree&>().begin());
  static constexpr int NO = 3;
  std::unique_ptr<Tree> t[NO + 1];
  int shapes = 0, costs = 0, walks = 1, objects = 1, looks = 6, drops = 0;

  BigTree(std::uint64_t seed, int u) : BigBase(seed, u) {}

  K key(int k) { return KM::key(k, KM::reps > 1 ? rng.below(KM::reps) : 0); }
  int rank(Tree& x, const It& it) { return it == x.end() ? 0 : KM::rank(it->first); }
  int genz(Tree& x, const It& it) {
    if (it == x.end()) return 0;
    return BV<V>::gen(KM::rank(it->first), it->second);
  }
  int size(int o) { return static_cast<int>(t[o]->size()); }

  void make(int o) {
    t[o] = std::make_unique<Tree>(Cfg::A::template make<K, V>(o, rng));
    LOG.ev("new", o, 0);
  }
  void destroy(int o) {
    t[o].reset();
    LOG.ev("del", o);
  }
  // one insertion, of any kind
  std::pair<It, bool> put(Tree& x, int k, int g, int way) {
    V v = BV<V>::make(k, g);
    switch (way) {
      case 0: return x.insert(key(k), v);
      case 1: return x.insert({key(k), v});
      case 2: return x.emplace(key(k), v);
      case 3: return x.try_emplace(key(k), v);
      default: {
        auto s = x.size();
        auto it = x.emplace_hint(rng.chance(1, 2) ? x.cend() : x.cbegin(), key(k), v);
        return {it, x.size() != s};
      }
    }
  }
  void fill(int o, int lo, int hi) {
    Tree& x = *t[o];
    int g = fresh(), ins = 0, way = rng.in(0, 4);
    for (int k : keys(lo, hi, rng.in(0, 4))) ins += put(x, k, g, way).second ? 1 : 0;
    LOG.ev("fill", o, lo, hi, g, ins, size(o));
  }
  void cover(int o, int lo, int hi) {
    Tree& x = *t[o];
    int g = fresh(), ins = 0, way = rng.in(0, 1);
    for (int k : keys(lo, hi, rng.in(0, 4))) {
      auto s = x.size();
      if (way == 0) {
        auto [it, n] = x.insert_or_assign(key(k), BV<V>::make(k, g));
        ins += n ? 1 : 0;
        if (n != (x.size() == s + 1)) ins += 1000000;
      } else {
        x[key(k)] = BV<V>::make(k, g);
        ins += static_cast<int>(x.size() - s);
      }
    }
    LOG.ev("cover", o, lo, hi, g, ins, size(o));
  }
  void drop(int o, int lo, int hi) {
    Tree& x = *t[o];
    int cnt = 0;
    switch (rng.in(0, 2)) {
      case 0:
        for (int k : keys(lo, hi, rng.in(0, 4))) cnt += static_cast<int>(x.erase(key(k)));
        LOG.ev("drop", o, lo, hi, cnt, -1, 0, size(o));
        break;
      case 1: {
        auto it = x.lower_bound(key(lo));
        while (it != x.end() && KM::rank(it->first) <= hi && cnt <= U) {
          it = x.erase(it);
          ++cnt;
        }
        LOG.ev("drop", o, lo, hi, cnt, rank(x, it), genz(x, it), size(o));
        break;
      }
      default: {
        auto it = x.erase(x.lower_bound(key(lo)), x.upper_bound(key(hi)));
        LOG.ev("drop", o, lo, hi, -1, rank(x, it), genz(x, it), size(o));
      }
    }
  }
  void single(int o) {
    Tree& x = *t[o];
    int k = rng.in(1, U), g = fresh();
    switch (rng.in(0, 3)) {
      case 0: {
        auto [it, n] = put(x, k, g, rng.in(0, 4));
        LOG.ev("ins", o, k, g, n ? 1 : 0, rank(x, it), genz(x, it), size(o));
        break;
      }
      case 1: {
        auto [it, n] = x.insert_or_assign(key(k), BV<V>::make(k, g));
        LOG.ev("ioa", o, k, g, n ? 1 : 0, rank(x, it), genz(x, it), size(o));
        break;
      }
      case 2: {
        auto c = x.erase(key(k));
        LOG.ev("drop", o, k, k, static_cast<int>(c), -1, 0, size(o));
        break;
      }
      default: {
        auto p = x.lower_bound(key(k));
        if (p == x.end()) break;
        int r = KM::rank(p->first);
        auto it = x.erase(p);
        LOG.ev("drop", o, r, r, 1, rank(x, it), genz(x, it), size(o));
      }
    }
  }
  void look(int o) {
    Tree& x = *t[o];
    int k = rng.in(1, U);
    K kk = key(k);
    switch (rng.in(0, 5)) {
      case 0: { auto it = x.find(kk); LOG.ev("fnd", o, k, rank(x, it), genz(x, it)); break; }
      case 1: { auto it = x.lower_bound(kk); LOG.ev("lb", o, k, rank(x, it), genz(x, it)); break; }
      case 2: { auto it = x.upper_bound(kk); LOG.ev("ub", o, k, rank(x, it), genz(x, it)); break; }
      case 3: { auto [a, b] = x.equal_range(kk); LOG.ev("er", o, k, rank(x, a), rank(x, b)); break; }
      case 4: {
        const Tree& c = x;
        int g = 0;
        try {
          g = BV<V>::gen(k, c.at(kk));
        } catch (const std::out_of_range&) {
        }
        bool in = c.contains(kk);
        LOG.ev("fnd", o, k, in && c.count(kk) == 1 ? k : in ? -1 : 0, g);
        break;
      }
      default: LOG.ev("sz", o, size(o), x.empty() ? 1 : 0);
    }
  }
  void scan(int o) {
    Tree& x = *t[o];
    RunList r;
    int lim = U + 10;
    switch (rng.in(0, 3)) {
      case 0:
        for (auto it = x.begin(); it != x.end() && --lim > 0; ++it) {
          int k = KM::rank(it->first);
          r.add(k, BV<V>::gen(k, it->second));
        }
        break;
      case 1: {
        const Tree& c = x;
        for (auto it = c.cbegin(); it != c.cend() && --lim > 0;) {
          auto cur = it++;
          int k = KM::rank(cur->first);
          r.add(k, BV<V>::gen(k, cur->second));
        }
        break;
      }
      case 2:
        for (auto it = x.rbegin(); it != x.rend() && --lim > 0; ++it) {
          int k = KM::rank(it->first);
          r.add_down(k, BV<V>::gen(k, it->second));
        }
        r.turn();
        break;
      default:
        for (auto it = x.end(); it != x.begin() && --lim > 0;) {
          --it;
          int k = KM::rank(it->first);
          r.add_down(k, BV<V>::gen(k, it->second));
        }
        r.turn();
    }
    LOG.ev("scan", o, r.v);
  }
  void walk(int o) {
    Tree& x = *t[o];
    auto it = rng.chance(1, 8) ? x.end() : rng.chance(1, 8) ? x.begin() : x.lower_bound(key(rng.in(1, U)));
    int from = rank(x, it), d = 0, most = rng.chance(1, 2) ? 30 : U;
    int steps = rng.in(1, most);
    if (rng.chance(1, 2))
      for (; d < steps && it != x.end(); ++d) ++it;
    else
      for (; d > -steps && it != x.begin(); --d) --it;
    LOG.ev("walk", o, from, d, rank(x, it), genz(x, it));
  }
  void object_op() {
    int a = rng.in(1, NO), b = rng.in(1, NO - 1);
    if (b >= a) ++b;
    switch (rng.in(0, 5)) {
      case 0:
        destroy(a);
        t[a] = std::make_unique<Tree>(std::as_const(*t[b]));
        LOG.ev("cpy", a, b);
        break;
      case 1:
        destroy(a);
        t[a] = std::make_unique<Tree>(std::move(*t[b]));
        LOG.ev("mov", a, b);
        break;
      case 2:
        *t[a] = std::as_const(*t[b]);
        LOG.ev("asg", a, b);
        break;
      case 3:
        *t[a] = std::move(*t[b]);
        LOG.ev("masg", a, b);
        break;
      case 4:
        t[a]->swap(*t[b]);
        LOG.ev("swp", a, b);
        break;
      default:
        t[a]->clear();
        LOG.ev("clr", a, size(a));
    }
    for (int o : {a, b}) scan(o);
  }
  // ------------------------------------------------------------------ nodes
  struct Level {
    int nodes = 0, least = 1 << 30, most = 0, all = 0;
  };
  struct Sum {
    std::vector<Level> lv;  // from the root
    int dmin = 1 << 30, dmax = 0, bad = 0, nodes = 0;
  };
  // smallest and largest key below p
  std::pair<int, int> visit(const void* p, const void* parent, int depth, Sum& s) {
    auto it = BigNodes::live.find(static_cast<const char*>(p));
    if (it == BigNodes::live.end() || depth > 60) {
      ++s.bad;
      return {0, 0};
    }
    NodeDesc d = it->second.describe(p);
    ++s.nodes;
    int n = static_cast<int>(d.keys.size());
    if (static_cast<int>(s.lv.size()) < depth) s.lv.resize(static_cast<std::size_t>(depth));
    Level& l = s.lv[static_cast<std::size_t>(depth) - 1];
    ++l.nodes;
    l.least = std::min(l.least, n);
    l.most = std::max(l.most, n);
    l.all += n;
    if (d.parent != parent || n == 0) ++s.bad;
    if (n == 0) return {0, 0};
    if (d.kind == 0) {
      s.dmin = std::min(s.dmin, depth);
      s.dmax = std::max(s.dmax, depth);
      return {d.keys[0], d.keys[static_cast<std::size_t>(n) - 1]};
    }
    int first = 0, last = 0;
    for (std::size_t i = 0; i < d.kids.size(); ++i) {
      auto [a, b] = visit(d.kids[i], p, depth + 1, s);
      if (i == 0) first = a;
      else if (!(last < d.keys[i] && d.keys[i] <= a)) ++s.bad;  // lookups would be misled
      last = b;
    }
    return {first, last};
  }
  void shape() {
    if constexpr (requires { Cfg::A::knows; }) {
      int reached = 0, empties = 0;
      for (int o = 1; o <= NO; ++o) {
        if (!t[o]) continue;
        Sum s;
        if (t[o]->empty()) ++empties;
        else {
          auto first = t[o]->begin();
          const char* at = reinterpret_cast<const char*>(&first->second);
          auto it = BigNodes::live.upper_bound(at);
          if (it == BigNodes::live.begin()) { LOG.ev("ok", o, 0); continue; }
          --it;
          const void* root = it->first;
          for (int i = 0; i < 60; ++i) {
            auto n = BigNodes::live.find(static_cast<const char*>(root));
            if (n == BigNodes::live.end()) { LOG.ev("ok", o, 0); break; }
            NodeDesc d = n->second.describe(root);
            if (d.kind < 0) return;  // fields not accessible
            if (d.parent == nullptr) break;
            root = d.parent;
          }
          visit(root, nullptr, 1, s);
        }
        std::vector<std::vector<int>> lv;
        for (std::size_t i = s.lv.size(); i > 0; --i)
          lv.push_back({s.lv[i - 1].nodes, s.lv[i - 1].least, s.lv[i - 1].most, s.lv[i - 1].all});
        LOG.ev("shp", o, lv, s.nodes ? s.dmin : 0, s.dmax, s.bad);
        reached += s.nodes;
      }
      LOG.ev("held", 0, static_cast<int>(BigNodes::live.size()), reached, empties, static_cast<int>(BigNodes::wrong));
    }
  }
  void cost(int o) {
    if constexpr (requires { KM::C::calls; }) {
      K kk = KM::key(rng.in(1, U), 0);
      KM::C::calls = 0;
      bool r = rng.chance(1, 2) ? t[o]->contains(kk) : t[o]->lower_bound(kk) != t[o]->end();
      long n = KM::C::calls;
      LOG.ev("cost", o, static_cast<int>(n), r ? 1 : 0);
    }
  }
  void observe(int o) {
    for (int i = 0; i < looks; ++i) look(o);
    for (int i = 0; i < walks; ++i) walk(o);
    if (rng.chance(1, 3)) scan(o);
    if (rng.chance(shapes, 1000)) shape();
    for (int i = 0; i < costs; ++i) cost(o);
  }

  void run(int n) {
    LOG.ev("cfg", 0, Cfg::L, Cfg::I, Cfg::M == SearchMode::Binary ? 0 : 1);
    for (int o = 1; o <= NO; ++o) make(o);
    for (int i = 0; i < n; ++i) {
      int o = rng.chance(2, 3) ? 1 : rng.in(1, NO), lo, hi;
      range(lo, hi, U);
      if (rng.chance(1, 12)) {  // everything in, then out again
        fill(o, 1, U);
        observe(o);
        drop(o, 1, U);
      } else if (rng.chance(1, 8)) {
        fill(o, 1, U);
      } else {
        switch (drops && rng.chance(1, 2) ? 4 : rng.in(0, 5 + objects)) {
          case 0: case 1: case 2: fill(o, lo, hi); break;
          case 3: cover(o, lo, hi); break;
          case 4: case 5: drop(o, lo, hi); break;
          default: object_op();
        }
      }
      observe(o);
      for (int j = rng.below(5); j > 0; --j) {
        single(o);
        if (rng.chance(1, 2)) look(o);
      }
    }
    for (int o = 1; o <= NO; ++o) scan(o);
    shape();
    for (int o = 1; o <= NO; ++o) destroy(o);
    LOG.ev("held", 0, static_cast<int>(BigNodes::live.size()), 0, 0, static_cast<int>(BigNodes::wrong));
  }
};

template <class Cfg>
int big_tree_main(int argc, char** argv) {
  LOG.open(sarg(argc, argv, "-o", "trace.ndjson"));
  int U = static_cast<int>(arg(argc, argv, "-U", 90000));
  Cfg::KM::init(U);
  BigTree<Cfg> d(static_cast<std::uint64_t>(arg(argc, argv, "-seed", 1)), U);
  d.shapes = static_cast<int>(arg(argc, argv, "-shapes", 0));
  d.costs = static_cast<int>(arg(argc, argv, "-costs", 0));
  d.walks = static_cast<int>(arg(argc, argv, "-walks", 1));
  d.objects = static_cast<int>(arg(argc, argv, "-objects", 1));
  d.looks = static_cast<int>(arg(argc, argv, "-looks", 6));
  d.drops = static_cast<int>(arg(argc, argv, "-drops", 0));
  d.run(static_cast<int>(arg(argc, argv, "-n", 20)));
  LOG.close();
  return 0;
}

// ----------------------------------------------------------------- dense maps
// Objects 1, 3 have capacity CA, objects 2, 4 capacity CB.
template <class Cfg>
class BigDense : BigBase {
 public:
  using KM = typename Cfg::KM;
  using K = typename KM::K;
  using V = typename Cfg::V;
  using A = typename Cfg::A;
  using B = typename Cfg::B;
  static constexpr int NO = 4;
  std::unique_ptr<A> a[2];
  std::unique_ptr<B> b[2];
  int moves = 1, looks = 6;
  bool slow;  // insertions away from the end are expensive

  BigDense(std::uint64_t seed, int u) : BigBase(seed, u), slow(Cfg::CA > 4000) {}
  template <class F>
  void with(int o, F f) {
    if (o % 2 == 1) f(*a[o / 2]);
    else f(*b[o / 2 - 1]);
  }
  K key(int k) { return KM::key(k, KM::reps > 1 ? rng.below(KM::reps) : 0); }
  template <class M, class I>
  int rank(M& x, const I& it) { return it == x.end() ? 0 : KM::rank(it->first); }
  template <class M, class I>
  int genz(M& x, const I& it) {
    if (it == x.end()) return 0;
    return BV<V>::gen(KM::rank(it->first), it->second);
  }
  template <class M>
  int sz(M& x) { return static_cast<int>(x.size()); }
  int size(int o) {
    int n = 0;
    with(o, [&](auto& x) { n = sz(x); });
    return n;
  }
  int cap(int o) { return o % 2 == 1 ? Cfg::CA : Cfg::CB; }
  void make(int o) {
    if (o % 2 == 1) a[o / 2] = std::make_unique<A>();
    else b[o / 2 - 1] = std::make_unique<B>();
    LOG.ev("new", o, cap(o));
  }
  void destroy(int o) {
    if (o % 2 == 1) a[o / 2].reset();
    else b[o / 2 - 1].reset();
    LOG.ev("del", o);
  }
  int how() { return slow ? 0 : rng.in(0, 4); }
  // a range with enough room for it
  void fill(int o) {
    int room = cap(o) - size(o), lo, hi;
    if (room == 0) return;
    if (slow) {  // behind what is there
      lo = rng.chance(1, 2) ? 1 : rng.in(1, U);
      with(o, [&](auto& x) { if (!x.empty()) lo = KM::rank((--x.end())->first) + 1; });
      if (lo > U) return;
      hi = std::min(U, lo + rng.in(0, room - 1));
      if (rng.chance(1, 3)) hi = std::min(U, lo + room - 1);
    } else {
      range(lo, hi, room);
      hi = std::min(hi, lo + room - 1);
      if (rng.chance(1, 3)) hi = std::min(U, lo + room - 1);
    }
    int g = fresh(), ins = 0, way = rng.in(0, 2), order = how();
    bool assign = rng.chance(1, 3);
    with(o, [&](auto& x) {
      for (int k : keys(lo, hi, order)) {
        auto s = x.size();
        V v = BV<V>::make(k, g);
        if (assign && way == 0) x[key(k)] = v;
        else if (assign) x.insert_or_assign(key(k), v);
        else if (way == 0) x.insert(key(k), v);
        else if (way == 1) x.try_emplace(key(k), v);
        else x.insert_hint(x.lower_bound(key(k)), key(k), v);
        ins += static_cast<int>(x.size() - s);
      }
    });
    LOG.ev(assign ? "cover" : "fill", o, lo, hi, g, ins, size(o));
  }
  void drop(int o, int lo, int hi) {
    with(o, [&](auto& x) {
      int cnt = 0;
      if (rng.chance(1, 2) && !slow) {
        for (int k : keys(lo, hi, rng.in(0, 4))) cnt += static_cast<int>(x.erase(key(k)));
        LOG.ev("drop", o, lo, hi, cnt, -1, 0, sz(x));
      } else {
        wipe(o, x, lo, hi);
      }
    });
  }
  void single(int o) {
    int k = rng.in(1, U), g = fresh(), way = rng.in(0, 4);
    with(o, [&](auto& x) {
      V v = BV<V>::make(k, g);
      if (way <= 2) {
        try {
          auto r = way == 0 ? x.insert(key(k), v) : way == 1 ? x.try_emplace(key(k), v)
                                                             : x.insert_or_assign(key(k), v);
          LOG.ev(way == 2 ? "ioa" : "ins", o, k, g, r.second ? 1 : 0, rank(x, r.first), genz(x, r.first), sz(x));
        } catch (const std::runtime_error&) {
          LOG.ev(way == 2 ? "ioa" : "ins", o, k, g, 2, 0, 0, sz(x));
        }
      } else if (way == 3) {
        auto c = x.erase(key(k));
        LOG.ev("drop", o, k, k, static_cast<int>(c), -1, 0, sz(x));
      } else {
        auto p = x.lower_bound(key(k));
        if (p == x.end()) return;
        int r = KM::rank(p->first);
        auto it = x.erase(p);
        LOG.ev("drop", o, r, r, 1, rank(x, it), genz(x, it), sz(x));
      }
    });
  }
  void look(int o) {
    int k = rng.in(1, U);
    K kk = key(k);
    with(o, [&](auto& x) {
      const auto& c = x;
      switch (rng.in(0, 6)) {
        case 0: { auto it = x.find(kk); LOG.ev("fnd", o, k, rank(x, it), genz(x, it)); break; }
        case 1: { auto it = x.lower_bound(kk); LOG.ev("lb", o, k, rank(x, it), genz(x, it)); break; }
        case 2: { auto it = c.upper_bound(kk); LOG.ev("ub", o, k, rank(c, it), genz(c, it)); break; }
        case 3: {
          auto it = c.lower_bound(kk);
          LOG.ev("ix", o, rank(c, it), static_cast<int>(it - c.begin()));
          break;
        }
        case 4: case 5: {  // random access
          if (x.empty()) return;
          int i = rng.in(0, sz(x) - 1), j = rng.in(0, sz(x) - 1);
          auto it = x.begin() + i;
          it += j - i;
          auto r = (x.begin() + i)[j - i];
          bool same = KM::rank(r.first) == KM::rank(it->first) && it - (x.begin() + i) == j - i &&
                      (it < x.begin() + i) == (j < i) && x.end() - it == sz(x) - j && it - 1 + 1 == it &&
                      KM::rank((x.rbegin() + (sz(x) - 1 - j))->first) == KM::rank(it->first);
          LOG.ev("ra", o, j, same ? KM::rank(it->first) : -1, genz(x, it));
          break;
        }
        default:
          LOG.ev("sz", o, sz(x), x.empty() ? 1 : 0);
          LOG.ev("full", o, x.full() ? 1 : 0, static_cast<int>(c.capacity()));
      }
    });
  }
  void scan(int o) {
    RunList r;
    bool down = rng.chance(1, 2);
    with(o, [&](auto& x) {
      int lim = U + 10;
      if (down)
        for (auto it = x.rbegin(); it != x.rend() && --lim > 0; ++it) {
          int k = KM::rank(it->first);
          r.add_down(k, BV<V>::gen(k, it->second));
        }
      else
        for (auto it = x.begin(); it != x.end() && --lim > 0; ++it) {
          int k = KM::rank(it->first);
          r.add(k, BV<V>::gen(k, it->second));
        }
    });
    if (down) r.turn();
    LOG.ev("scan", o, r.v);
  }
  template <class M>
  void wipe(int o, M& x, int lo, int hi) {
    int cnt = 0;
    auto it = x.lower_bound(key(lo));
    while (it != x.end() && KM::rank(it->first) <= hi && cnt <= U) {
      it = x.erase(it);
      ++cnt;
    }
    LOG.ev("drop", o, lo, hi, cnt, rank(x, it), genz(x, it), sz(x));
  }
  template <class F>
  int attempt(F f) {
    try {
      f();
      return 0;
    } catch (const std::runtime_error&) {
      return 2;
    }
  }
  void transfer() {
    int o = rng.in(1, NO), p = rng.in(1, NO - 1);
    if (p >= o) ++p;
    if (rng.chance(1, 2) || size(o) == 0) fill(o);
    with(o, [&](auto& x) {
      with(p, [&](auto& y) {
        int n = sz(x);
        if (n == 0) return;
        int how = rng.in(0, 2), low = KM::rank(x.begin()->first), top = KM::rank((x.end() - 1)->first);
        // make room in y where the elements go
        if (how == 0 ? rng.chance(4, 5) : slow || rng.chance(1, 2)) {
          y.clear();
          LOG.ev("clr", p, sz(y));
        } else if (how == 1) {
          this->wipe(p, y, low, U);
        } else if (how == 2) {
          this->wipe(p, y, 1, top);
        }
        if (y.empty() && how != 0 && rng.chance(2, 3)) {  // something to stay beside
          int lo = how == 1 ? 1 : top + 1, hi = how == 1 ? low - 1 : U;
          hi = std::min({hi, lo + cap(p) - 1, lo + rng.in(0, rng.chance(1, 2) ? 400 : cap(p))});
          int g = fresh(), ins = 0;
          for (int k = lo; k <= hi; ++k) ins += y.insert(key(k), BV<V>::make(k, g)).second ? 1 : 0;
          if (lo <= hi) LOG.ev("fill", p, lo, hi, g, ins, sz(y));
        }
        int m = sz(y), cnt = rng.chance(1, 4) ? n : rng.chance(1, 10) ? n + 1 : rng.in(0, n);
        if (rng.chance(1, 4)) cnt = std::min(n, cap(p) - m + rng.in(0, 1));
        if (how == 0) {
          int i = rng.chance(1, 5) ? 0 : rng.chance(1, 5) ? n : rng.in(0, n);
          int out = attempt([&] { x.split_at(x.begin() + i, y); });
          LOG.ev("spl", o, p, i, out, sz(x), sz(y));
        } else if (how == 1) {
          int out = attempt([&] { y.transfer_prefix_from(x, static_cast<std::size_t>(cnt)); });
          LOG.ev("pre", p, o, cnt, out, sz(y), sz(x));
        } else {
          int out = attempt([&] { y.transfer_suffix_from(x, static_cast<std::size_t>(cnt)); });
          LOG.ev("suf", p, o, cnt, out, sz(y), sz(x));
        }
      });
    });
    scan(o);
    scan(p);
  }
  void object_op() {
    int h = rng.in(0, 1);  // which capacity
    auto go = [&](auto& from, auto& to, int of, int ot) {
      using M = std::remove_cvref_t<decltype(*from)>;
      switch (rng.in(0, 4)) {
        case 0: destroy(ot); to = std::make_unique<M>(std::as_const(*from)); LOG.ev("cpy", ot, of); break;
        case 1: destroy(ot); to = std::make_unique<M>(std::move(*from)); LOG.ev("mov", ot, of); break;
        case 2: *to = std::as_const(*from); LOG.ev("asg", ot, of); break;
        case 3: *to = std::move(*from); LOG.ev("masg", ot, of); break;
        default: to->clear(); LOG.ev("clr", ot, sz(*to));
      }
      scan(of);
      scan(ot);
    };
    bool s = rng.chance(1, 2);
    if (h == 0) go(a[s], a[!s], s ? 3 : 1, s ? 1 : 3);
    else go(b[s], b[!s], s ? 4 : 2, s ? 2 : 4);
  }
  void run(int n) {
    LOG.ev("cfg", 0, 8, 8, 0);
    for (int o = 1; o <= NO; ++o) make(o);
    for (int i = 0; i < n; ++i) {
      int o = rng.in(1, NO), lo, hi;
      range(lo, hi, slow ? 200 : U);
      switch (rng.in(0, 6 + moves)) {
        case 0: case 1: case 2: fill(o); break;
        case 3: case 4: drop(o, lo, hi); break;
        case 5: object_op(); break;
        case 6:
          if (slow && rng.chance(1, 2)) {
            with(o, [&](auto& x) { x.clear(); });
            LOG.ev("clr", o, size(o));
          }
          break;
        default: transfer();
      }
      for (int j = 0; j < looks; ++j) look(o);
      for (int j = rng.below(5); j > 0; --j) single(o);
      if (rng.chance(1, 3)) scan(o);
    }
    for (int o = 1; o <= NO; ++o) scan(o);
    for (int o = 1; o <= NO; ++o) destroy(o);
  }
};

template <class Cfg>
int big_dense_main(int argc, char** argv) {
  LOG.open(sarg(argc, argv, "-o", "trace.ndjson"));
  int U = static_cast<int>(arg(argc, argv, "-U", 1000));
  Cfg::KM::init(U);
  BigDense<Cfg> d(static_cast<std::uint64_t>(arg(argc, argv, "-seed", 1)), U);
  d.moves = static_cast<int>(arg(argc, argv, "-moves", 1));
  d.looks = static_cast<int>(arg(argc, argv, "-looks", 6));
  d.run(static_cast<int>(arg(argc, argv, "-n", 50)));
  LOG.close();
  return 0;
}

}  // namespace vh
