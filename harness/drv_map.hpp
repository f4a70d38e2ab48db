// Conformance driver for btree: runs operation programs against real trees and
// records every call with its arguments and results as OMapTrace events.
#pragma once
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <map>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <typeinfo>

#include "common.hpp"

namespace vh {
namespace fc = kressler::fast_containers;
using fc::SearchMode;

// ---------------------------------------------------------------- allocators
struct StdA {
  template <class K, class V>
  using type = std::allocator<std::pair<K, V>>;
  template <class K, class V>
  static type<K, V> make(int, Rng&) { return {}; }
};
struct HugeA {
  template <class K, class V>
  using type = fc::HugePageAllocator<std::pair<K, V>>;
  template <class K, class V>
  static type<K, V> make(int, Rng&) { return type<K, V>(1 << 16, false, 1 << 16); }
};
struct TwoPoolA {
  template <class K, class V>
  using type = fc::PolicyBasedHugePageAllocator<std::pair<K, V>, fc::TwoPoolPolicy>;
  template <class K, class V>
  static type<K, V> make(int, Rng&) {
    return fc::make_two_pool_allocator<K, V>(1 << 16, 1 << 15, false, 1 << 16, 1 << 14);
  }
};
struct MultiA {
  template <class K, class V>
  using type = fc::MultiSizeHugePageAllocator<std::pair<K, V>>;
  template <class K, class V>
  static type<K, V> make(int, Rng&) {
    return fc::make_multi_size_hugepage_allocator<std::pair<K, V>>(1 << 16, false, 1 << 16);
  }
};

// A recording allocator. Every block obtained and returned is an event; each
// block remembers how to describe the node in it. PROP = the allocator moves
// with the contents on move assignment and swap.
struct NodeDesc {
  int kind = -1;  // 0 leaf, 1 internal over leaves, 2 internal over internal
  const void *parent = nullptr, *prev = nullptr, *next = nullptr;
  std::vector<int> keys, pays;
  std::vector<const void*> kids;
};
struct Block {
  int id, alloc, kind, count;
  const std::type_info* type;
  std::size_t bytes;
  NodeDesc (*describe)(const void*);
};
struct Blocks {
  static inline std::map<const char*, Block> live;
  static inline std::set<int> ids;  // free ids below top
  static inline int top = 0;
  static int take() {
    if (ids.empty()) return ++top;
    int i = *ids.begin();
    ids.erase(ids.begin());
    return i;
  }
  static inline bool described = true;
  static const Block* containing(const void* p, const char** base) {
    auto it = live.upper_bound(static_cast<const char*>(p));
    if (it == live.begin()) return nullptr;
    --it;
    if (static_cast<const char*>(p) >= it->first + it->second.bytes) return nullptr;
    *base = it->first;
    return &it->second;
  }
};
template <class KM, bool PROP>
struct RecA {
  template <class T>
  struct Alloc {
    using value_type = T;
    using propagate_on_container_move_assignment = std::bool_constant<PROP>;
    using propagate_on_container_swap = std::bool_constant<PROP>;
    using is_always_equal = std::false_type;
    int id;
    explicit Alloc(int i) : id(i) {}
    template <class U>
    Alloc(const Alloc<U>& o) : id(o.id) {}
    template <class U>
    struct rebind {
      using other = Alloc<U>;
    };
    static constexpr int kind() {
      if constexpr (requires(T& t) { t.next_leaf; }) return 1;
      else if constexpr (requires(T& t) { t.children_are_leaves; }) return 2;
      else return 3;
    }
    static NodeDesc describe(const void* p) {
      NodeDesc d;
      const T& x = *static_cast<const T*>(p);
      if constexpr (requires { x.data.begin(); x.next_leaf; x.prev_leaf; x.parent; }) {
        using V = std::remove_cvref_t<decltype(x.data.begin()->second)>;
        d.kind = 0;
        d.parent = x.parent;
        d.prev = x.prev_leaf;
        d.next = x.next_leaf;
        for (auto it = x.data.begin(); it != x.data.end(); ++it) {
          d.keys.push_back(KM::rank(it->first));
          d.pays.push_back(KM::rep(it->first) * REP + VT<V>::get(it->second));
        }
      } else if constexpr (requires { x.children_are_leaves; x.leaf_children.begin();
                                      x.internal_children.begin(); x.parent; }) {
        d.kind = x.children_are_leaves ? 1 : 2;
        d.parent = x.parent;
        auto each = [&](auto& ch) {
          for (auto it = ch.begin(); it != ch.end(); ++it) {
            d.keys.push_back(KM::rank(it->first));
            d.kids.push_back(it->second);
          }
        };
        if (d.kind == 1) each(x.leaf_children);
        else each(x.internal_children);
      }
      return d;
    }
    T* allocate(std::size_t n) {
      if (Fault::hit()) throw std::bad_alloc();
      std::size_t bytes = n * sizeof(T);
      char* p = static_cast<char*>(::operator new(bytes, std::align_val_t(std::max(alignof(T), std::size_t(64)))));
      std::memset(p, 0xCD, bytes);
      int num = Blocks::take();
      Blocks::live[p] = Block{num, id, kind(), static_cast<int>(n), &typeid(T), bytes, &describe};
      LOG.ev("na", num, id, kind(), static_cast<int>(n));
      return reinterpret_cast<T*>(p);
    }
    void deallocate(T* q, std::size_t n) {
      char* p = reinterpret_cast<char*>(q);
      auto it = Blocks::live.find(p);
      if (it == Blocks::live.end() || *it->second.type != typeid(T)) {
        LOG.ev("nf", 0, id, kind(), static_cast<int>(n), 0);
        return;
      }
      LOG.ev("nf", it->second.id, id, kind(), static_cast<int>(n), Registry::within(p, it->second.bytes));
      std::memset(p, 0xDD, it->second.bytes);
      ::operator delete(p, std::align_val_t(std::max(alignof(T), std::size_t(64))));
      Blocks::ids.insert(it->second.id);
      Blocks::live.erase(it);
    }
    friend bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
  };
  template <class K, class V>
  using type = Alloc<std::pair<K, V>>;
  template <class K, class V>
  static type<K, V> make(int, Rng& r) { return type<K, V>(r.in(1, 3)); }
  static constexpr bool records = true;
};
template <class A>
constexpr bool records = requires { A::records; };

// Nodes in guarded memory, of trees that are in guarded memory themselves
struct GuardA {
  template <class T>
  struct Alloc {
    using value_type = T;
    Alloc() = default;
    template <class U>
    Alloc(const Alloc<U>&) {}
    T* allocate(std::size_t n) { return static_cast<T*>(Guard::take(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) { Guard::give(p); }
    friend bool operator==(const Alloc&, const Alloc&) { return true; }
  };
  template <class K, class V>
  using type = Alloc<std::pair<K, V>>;
  template <class K, class V>
  static type<K, V> make(int, Rng&) { return {}; }
};

template <class KM_, class V_, int L_, int I_, SearchMode M_, class A_ = StdA, int NO_ = 1>
struct Config {
  using KM = KM_;
  using V = V_;
  using A = A_;
  static constexpr int L = L_, I = I_, NO = NO_;
  static constexpr SearchMode M = M_;
  using Plain = fc::btree<typename KM::K, V, static_cast<std::size_t>(L_),
                          static_cast<std::size_t>(I_), typename KM::C, M_,
                          typename A_::template type<typename KM::K, V>>;
  using Tree = std::conditional_t<std::is_same_v<A, GuardA>, Guarded<Plain>, Plain>;
};

// Weights of the operations; zero = not used
struct Mix {
  int insert = 10, ioa = 5, sub = 4, te = 4, emplace = 3, hint = 3;
  int ekey = 10, epos = 8, erng = 1, clear = 0;
  int probe = 40;      // per mille: lookup probes after each update
  int walk = 150;      // per mille: walks from returned positions
  int scan = 8;        // per mille: full scans after each update
  int write = 100;     // per mille: write through a returned position
  int alias = 0;       // per mille: arguments referring into the container
  int bounds = 0;      // per mille: bound queries
  int loops = 0;       // per mille per phase: erase loops
  int shape = 0;       // per mille: shape snapshots after each update
  int cost = 0;        // per mille: counted lookups
};

template <class Cfg>
class MapDriver {
 public:
  using KM = typename Cfg::KM;
  using K = typename KM::K;
  using V = typename Cfg::V;
  using Tree = typename Cfg::Tree;
  using It = decltype(std::declval<Tree&>().begin());
  using VM = VT<V>;
  static constexpr int NO = Cfg::NO;

  Rng rng;
  int U;
  Mix mix;
  std::unique_ptr<Tree> t[NO + 1];
  std::set<int> sh[NO + 1];  // shadow contents, used to choose arguments only
  int vctr = 0;
  std::vector<const V*> mine;  // values the driver holds itself
  bool inject = false;  // insertions are interrupted by failures

  MapDriver(std::uint64_t seed, int u) : rng(seed), U(u) {}

  // ------------------------------------------------------------- small things
  int fresh() {
    vctr = (vctr + 1) % (VM::maxv - 2);
    return vctr + 2;
  }
  int rrep() { return KM::reps > 1 ? rng.below(KM::reps) : 0; }
  int pay(const It& it) { return KM::rep(it->first) * REP + VM::get(it->second); }
  int rank(Tree& x, const It& it) { return it == x.end() ? 0 : KM::rank(it->first); }
  int payz(Tree& x, const It& it) { return it == x.end() ? 0 : pay(it); }
  int rank2(Tree& x, const It& it) {  // through operator* and const access
    if (it == std::as_const(x).end()) return 0;
    auto r = *it;
    std::pair<K, V> p = r;
    return KM::rank(p.first);
  }
  int present(int o) {
    if (sh[o].empty()) return 0;
    auto it = sh[o].lower_bound(rng.in(1, U));
    return it == sh[o].end() ? *sh[o].begin() : *it;
  }
  int absent(int o) {
    int k = rng.in(1, U);
    for (int i = 0; i < U; ++i, k = k % U + 1)
      if (!sh[o].contains(k)) return k;
    return 0;
  }
  int size(int o) { return static_cast<int>(t[o]->size()); }

  // ------------------------------------------------------------- observations
  void scan(int o) {
    std::vector<int> v;
    int lim = static_cast<int>(sh[o].size()) + 5;
    if (rng.chance(1, 2)) {
      for (auto it = t[o]->begin(); it != t[o]->end(); ++it) {
        v.push_back(KM::rank(it->first));
        v.push_back(pay(it));
        if (--lim < 0) break;
      }
    } else {
      const Tree& c = *t[o];
      for (auto it = c.cbegin(); it != c.cend();) {
        auto cur = it++;
        auto r = *cur;
        v.push_back(KM::rank(r.first));
        v.push_back(KM::rep(r.first) * REP + VM::get(r.second));
        if (--lim < 0) break;
      }
    }
    LOG.ev("scan", o, v);
  }
  void bscan(int o) {  // backward from end
    std::vector<int> v;
    Tree& x = *t[o];
    if (!x.empty()) {
      int lim = static_cast<int>(sh[o].size()) + 5;
      auto it = x.end();
      while (it != x.begin()) {
        if (rng.chance(1, 4)) it--; else --it;
        v.push_back(KM::rank(it->first));
        v.push_back(pay(it));
        if (--lim < 0) break;
      }
    }
    LOG.ev("rscan", o, v);
  }
  void rscan(int o) {
    std::vector<int> v;
    int lim = static_cast<int>(sh[o].size()) + 5;
    if (rng.chance(1, 2)) {
      for (auto it = t[o]->rbegin(); it != t[o]->rend(); ++it) {
        v.push_back(KM::rank(it->first));
        v.push_back(KM::rep(it->first) * REP + VM::get(it->second));
        if (--lim < 0) break;
      }
    } else {
      const Tree& c = *t[o];
      for (auto it = c.crbegin(); it != c.crend();) {
        auto cur = it++;
        auto r = *cur;
        v.push_back(KM::rank(r.first));
        v.push_back(KM::rep(r.first) * REP + VM::get(r.second));
        if (--lim < 0) break;
      }
    }
    LOG.ev("rscan", o, v);
  }
  // walk from a position that was logged as rank r
  void walk_from(int o, It it, int r, int steps) {
    Tree& x = *t[o];
    std::vector<int> ds, ks;
    bool drift = rng.chance(1, 2);
    int dir = rng.chance(1, 2) ? 1 : -1;
    if (x.empty()) {
      LOG.ev("walk", o, r, ds, ks);
      return;
    }
    for (int i = 0; i < steps; ++i) {
      int d = drift ? dir : (rng.chance(1, 2) ? 1 : -1);
      if (d == 1 && it == x.end()) d = -1;
      if (d == -1 && it == x.begin()) {
        if (it == x.end()) break;
        d = 1;
      }
      if (rng.chance(1, 3)) {
        auto old = d == 1 ? it++ : it--;
        ds.push_back(0);
        ks.push_back(rank(x, old));
      } else {
        if (d == 1) ++it; else --it;
      }
      ds.push_back(d);
      ks.push_back(rng.chance(1, 4) ? rank2(x, it) : rank(x, it));
      if (drift && ((d == 1 && it == x.end()) || (d == -1 && it == x.begin()))) break;
    }
    LOG.ev("walk", o, r, ds, ks);
  }
  void rwalk(int o, int steps) {
    Tree& x = *t[o];
    if (x.empty()) {
      LOG.ev("ok", o, x.rbegin() == x.rend() ? 1 : 0);
      return;
    }
    std::vector<int> ds, ks;
    auto it = x.rbegin();
    ds.push_back(1);
    ks.push_back(it == x.rend() ? 0 : KM::rank(it->first));
    bool drift = rng.chance(2, 3);
    for (int i = 0; i < steps; ++i) {
      int d = drift ? 1 : (rng.chance(1, 2) ? 1 : -1);
      if (d == 1 && it == x.rend()) {
        d = -1;
        drift = false;
      }
      if (d == -1 && it == x.rbegin()) {
        if (it == x.rend()) break;
        d = 1;
      }
      if (rng.chance(1, 3)) {
        auto old = d == 1 ? it++ : it--;
        ds.push_back(0);
        ks.push_back(old == x.rend() ? 0 : KM::rank(old->first));
      } else {
        if (d == 1) ++it; else --it;
      }
      ds.push_back(d);
      ks.push_back(it == x.rend() ? 0 : KM::rank((*it).first));
    }
    LOG.ev("rwalk", o, U + 1, ds, ks);
  }
  void maybe_walk(int o, It it, int r) {
    if (rng.chance(mix.walk, 1000))
      walk_from(o, it, r, rng.chance(1, 6) ? rng.in(5, 30) : rng.in(1, 4));
  }
  void maybe_write(int o, It it, int k) {
    if (!rng.chance(mix.write, 1000)) return;
    int v = fresh();
    if (rng.chance(1, 2)) it->second = VM::make(v);
    else (*it).second = VM::make(v);
    LOG.ev("wr", o, k, v);
    if (rng.chance(1, 2)) probe(o, k, 0);
  }

  // which: 0 find/count/contains/at..., 1 bounds
  void probe(int o, int k, int which) {
    Tree& x = *t[o];
    K key = KM::key(k, rrep());
    int c = which == 0 ? rng.below(7) : 7 + rng.below(3);
    switch (c) {
      case 0: case 1: {
        auto it = x.find(key);
        int r = rank(x, it);
        LOG.ev("fnd", o, k, r, payz(x, it));
        maybe_walk(o, it, r);
        break;
      }
      case 2: {
        auto it = std::as_const(x).find(key);
        LOG.ev("fnd", o, k, rank2(x, it), payz(x, it));
        break;
      }
      case 3: LOG.ev("cnt", o, k, static_cast<int>(x.count(key))); break;
      case 4: LOG.ev("cnt", o, k, x.contains(key) ? 1 : 0); break;
      case 5: case 6: {
        int p = 0;
        try {
          p = c == 5 ? VM::get(x.at(key)) : VM::get(std::as_const(x).at(key));
        } catch (const std::out_of_range&) {
          p = 0;
        }
        LOG.ev("at", o, k, p);
        break;
      }
      case 7: {
        auto it = x.lower_bound(key);
        int r = rank(x, it);
        LOG.ev("lb", o, k, r, payz(x, it));
        maybe_walk(o, it, r);
        break;
      }
      case 8: {
        auto it = x.upper_bound(key);
        int r = rank(x, it);
        LOG.ev("ub", o, k, r, payz(x, it));
        maybe_walk(o, it, r);
        break;
      }
      case 9: {
        auto [a, b] = x.equal_range(key);
        int ra = rank(x, a), rb = rank(x, b);
        LOG.ev("er", o, k, ra, rb);
        maybe_walk(o, a, ra);
        maybe_walk(o, b, rb);
        break;
      }
      default: break;
    }
  }
  void table(int o) {  // every lookup at once
    Tree& x = *t[o];
    std::vector<int> lb, ub, fd;
    for (int k = 1; k <= U; ++k) {
      K key = KM::key(k, rrep());
      lb.push_back(rank(x, x.lower_bound(key)));
      ub.push_back(rank(x, x.upper_bound(key)));
      fd.push_back(payz(x, x.find(key)));
    }
    LOG.ev("tab", o, lb, ub, fd);
  }
  // all nodes of all trees
  void shape() {
    if constexpr (records<typename Cfg::A>) {
      std::vector<NodeDesc> nd;
      std::vector<int> ids;
      std::map<const void*, int> pos;
      for (auto& [p, b] : Blocks::live) {
        if (b.kind == 3) continue;
        nd.push_back(b.describe(p));
        if (nd.back().kind < 0) return;  // fields not accessible
        ids.push_back(b.id);
        pos[p] = static_cast<int>(nd.size());
      }
      auto at = [&](const void* p) {
        if (p == nullptr) return 0;
        auto it = pos.find(p);
        return it == pos.end() ? -1 : it->second;
      };
      std::vector<std::vector<int>> roots;
      for (int o = 1; o <= NO; ++o) {
        if (!t[o] || t[o]->empty()) continue;
        const char* base = nullptr;
        auto it = t[o]->begin();
        const Block* b = Blocks::containing(&it->second, &base);
        int i = b ? at(base) : -1;
        for (std::size_t g = 0; g <= nd.size() && i > 0 && nd[static_cast<std::size_t>(i) - 1].parent; ++g)
          i = at(nd[static_cast<std::size_t>(i) - 1].parent);
        roots.push_back({o, i});
      }
      LOG.ch('[');
      LOG.put("shape");
      LOG.ch(',');
      LOG.put(roots);
      LOG.ch(',');
      LOG.ch('[');
      for (std::size_t i = 0; i < nd.size(); ++i) {
        if (i) LOG.ch(',');
        LOG.ch('[');
        for (int v : {ids[i], nd[i].kind, at(nd[i].parent), at(nd[i].prev), at(nd[i].next)}) {
          LOG.num(v);
          LOG.ch(',');
        }
        LOG.put(nd[i].keys);
        LOG.ch(',');
        if (nd[i].kind == 0) LOG.put(nd[i].pays);
        else {
          std::vector<int> k;
          for (auto c : nd[i].kids) k.push_back(at(c));
          LOG.put(k);
        }
        LOG.ch(']');
      }
      LOG.ch(']');
      LOG.ch(']');
      LOG.ch('\n');
    }
  }
  // comparator calls of one lookup
  void cost(int o) {
    if constexpr (requires { KM::C::calls; }) {
      int k = rng.in(1, U);
      K key = KM::key(k, 0);
      KM::C::calls = 0;
      bool c = rng.chance(1, 3) ? t[o]->contains(key) : rng.chance(1, 2)
                   ? t[o]->find(key) != t[o]->end() : t[o]->lower_bound(key) != t[o]->end();
      long n = KM::C::calls;
      LOG.ev("cost", o, c ? 1 : 0, static_cast<int>(n));
    }
  }
  void size_ev(int o) { LOG.ev("sz", o, size(o), t[o]->empty() ? 1 : 0); }

  void observe(int o) {
    if (mix.shape > 0 && rng.chance(mix.shape, 1000)) shape();
    if (mix.cost > 0 && rng.chance(mix.cost, 1000)) cost(o);
    if (rng.chance(mix.probe, 1000)) {
      int n = rng.in(1, 3);
      for (int i = 0; i < n; ++i) probe(o, rng.in(1, U), 0);
      size_ev(o);
    }
    if (rng.chance(mix.bounds, 1000)) probe(o, rng.in(1, U), 1);
    if (rng.chance(mix.scan, 1000)) {
      int c = rng.below(3);
      if (c == 0) scan(o); else if (c == 1) bscan(o); else rscan(o);
      if (rng.chance(1, 3)) rwalk(o, rng.in(1, 40));
    }
    if (rng.chance(mix.walk, 4000) && !t[o]->empty()) {
      auto it = t[o]->begin();
      int r = rank(*t[o], it);
      std::vector<int> ds{1}, ks{r};
      LOG.ev("walk", o, -1, ds, ks);
      walk_from(o, it, r, rng.in(1, 6));
      auto e = t[o]->end();
      walk_from(o, e, 0, rng.in(1, 6));
    }
  }

  // ------------------------------------------------------------------ updates
  void ins_ev(const char* op, int o, int k, int p, bool ins, It it) {
    Tree& x = *t[o];
    int r = rank(x, it);
    LOG.ev(op, o, k, p, ins ? 1 : 0, r, payz(x, it), size(o));
    if (ins) sh[o].insert(k);
    if (r > 0) {
      maybe_write(o, it, r);
      maybe_walk(o, it, r);
    }
    if (rng.chance(mix.probe, 1000)) probe(o, k, 0);
  }

  // the pair built in every way a pair can be built
  auto emplace_any(Tree& x, const K& key, int v) {
    switch (rng.below(5)) {
      case 0: {
        K moved = key;
        return x.emplace(std::move(moved), VM::make(v));
      }
      case 1: return x.emplace(std::pair<K, V>(key, VM::make(v)));
      case 2: {
        std::pair<const K, V> pr(key, VM::make(v));
        return x.emplace(pr);
      }
      case 3:
        if constexpr (requires { VM::parts(v, [](auto&&...) { return 0; }); })
          return VM::parts(v, [&](auto... a) {
            return x.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(a...));
          });
        else
          return x.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(VM::make(v)));
      default: return x.emplace(key, VM::make(v));
    }
  }
  // insertion-type update of key k
  void put(int o, int k) {
    Tree& x = *t[o];
    K key = KM::key(k, rrep());
    int rep = KM::rep(key), v = fresh(), p = rep * REP + v;
    int w = rng.below(mix.insert + mix.ioa + mix.sub + mix.te + mix.emplace + mix.hint);
    if ((w -= mix.insert) < 0) {
      if (rng.chance(1, 2)) {
        auto [it, b] = x.insert(key, VM::make(v));
        ins_ev("ins", o, k, p, b, it);
      } else {
        typename Tree::value_type pr(key, VM::make(v));
        auto [it, b] = x.insert(pr);
        ins_ev("ins", o, k, p, b, it);
      }
    } else if ((w -= mix.ioa) < 0) {
      if constexpr (VM::maker || requires { VM::other(v, [](auto&&) { return 0; }); })
        if (rng.chance(1, 3)) {  // the value is converted from another type
          int built = 0;
          auto go = [&](auto&& from) { return x.insert_or_assign(key, std::forward<decltype(from)>(from)); };
          auto [it, b] = [&] {
            if constexpr (VM::maker) return go(typename VM::Maker{v, &built});
            else return VM::other(v, go);
          }();
          ins_ev("ioa", o, k, p, b, it);
          return;
        }
      V val = VM::make(v);
      if (rng.chance(1, 2)) {
        auto [it, b] = x.insert_or_assign(key, val);
        bool intact = VM::get(val) == v;
        val = V();
        if (!intact) LOG.ev("ok", o, 0);  // an lvalue argument was modified
        ins_ev("ioa", o, k, p, b, it);
      } else {
        auto [it, b] = x.insert_or_assign(key, std::move(val));
        val = V();
        ins_ev("ioa", o, k, p, b, it);
      }
    } else if ((w -= mix.sub) < 0) {
      V& ref = x[key];
      int rp = VM::get(ref);
      LOG.ev("sub", o, k, rep * REP + 1, rp, size(o));
      sh[o].insert(k);
      if (VM::tokens || rng.chance(2, 3)) {
        ref = VM::make(v);
        LOG.ev("wr", o, k, v);
      }
    } else if ((w -= mix.te) < 0) {
      if (!VM::tokens && rng.chance(1, 5)) {  // the default value
        auto [it, b] = x.try_emplace(key);
        ins_ev("ins", o, k, rep * REP + 1, b, it);
        return;
      }
      if constexpr (requires { VM::parts(v, [](auto&&...) { return 0; }); })
        if (rng.chance(1, 3)) {
          auto [it, b] = VM::parts(v, [&](auto... a) { return x.try_emplace(key, a...); });
          ins_ev("ins", o, k, p, b, it);
          return;
        }
      if constexpr (VM::maker) {
        int built = 0;
        auto [it, b] = x.try_emplace(key, typename VM::Maker{v, &built});
        Tree& y = x;
        int r = rank(y, it);
        LOG.ev("te", o, k, p, b ? 1 : 0, r, payz(y, it), size(o), built);
        if (b) sh[o].insert(k);
        maybe_walk(o, it, r);
      } else {
        V val = VM::make(v);
        auto [it, b] = x.try_emplace(key, std::move(val));
        int consumed = VM::get(val) == v ? 0 : 1;
        val = V();
        int r = rank(x, it);
        LOG.ev("te", o, k, p, b ? 1 : 0, r, payz(x, it), size(o), b ? 1 : consumed);
        if (b) sh[o].insert(k);
        maybe_walk(o, it, r);
      }
    } else if ((w -= mix.emplace) < 0) {
      auto [it, b] = emplace_any(x, key, v);
      ins_ev("ins", o, k, p, b, it);
    } else {
      auto h = rng.chance(1, 2) ? x.cend() : x.lower_bound(KM::key(rng.in(1, U), 0));
      bool had = sh[o].contains(k);
      auto it = x.emplace_hint(h, key, VM::make(v));
      ins_ev("ins", o, k, p, !had, it);  // the flag is not reported: derive it
    }
  }

  // updates whose arguments refer to elements of the container
  void put_alias(int o, int k) {
    Tree& x = *t[o];
    if (x.empty()) return put(o, k);
    // referred element: a neighbour of k, or anything
    int src;
    if (rng.chance(1, 2)) src = present(o);
    else {
      auto it = sh[o].lower_bound(k);
      if (it == sh[o].end() || (rng.chance(1, 2) && it != sh[o].begin())) --it;
      src = *it;
      for (int j = rng.below(6); j > 0 && it != sh[o].begin(); --j) src = *--it;
    }
    auto sit = x.find(KM::key(src, 0));
    if (sit == x.end()) { LOG.ev("fnd", o, src, 0, 0); return; }
    int sv = VM::get(sit->second), srep = KM::rep(sit->first);
    K key = KM::key(k, rrep());
    int rep = KM::rep(key);
    const V& sref = sit->second;
    const K& skey = sit->first;
    switch (rng.below(10)) {
      case 0: case 1: {
        auto [it, b] = x.insert(key, sref);
        ins_ev("ins", o, k, rep * REP + sv, b, it);
        break;
      }
      case 2: case 3: {
        auto [it, b] = x.insert_or_assign(key, sref);
        ins_ev("ioa", o, k, rep * REP + sv, b, it);
        break;
      }
      case 4: {
        auto [it, b] = x.try_emplace(key, sref);
        ins_ev("ins", o, k, rep * REP + sv, b, it);
        break;
      }
      case 5: {
        auto [it, b] = x.emplace(key, sref);
        ins_ev("ins", o, k, rep * REP + sv, b, it);
        break;
      }
      case 6: {  // whole element inserted again through references
        auto [it, b] = x.insert(skey, sref);
        ins_ev("ins", o, src, srep * REP + sv, b, it);
        break;
      }
      case 7: {  // assignment of an element's own or another's value by own key
        auto [it, b] = x.insert_or_assign(skey, sref);
        ins_ev("ioa", o, src, srep * REP + sv, b, it);
        break;
      }
      case 8: {
        V& ref = x[skey];
        LOG.ev("sub", o, src, srep * REP + 1, VM::get(ref), size(o));
        break;
      }
      default: {  // clear-and-refill through references to other elements
        auto [it, b] = x.try_emplace(skey, sref);
        ins_ev("ins", o, src, srep * REP + sv, b, it);
        break;
      }
    }
  }

  void erased(int o, int k) { sh[o].erase(k); }

  void del(int o, int k) {
    Tree& x = *t[o];
    int w = rng.below(mix.ekey + mix.epos);
    K key = KM::key(k, rrep());
    if (w < mix.ekey || !sh[o].contains(k)) {
      int c = static_cast<int>(x.erase(key));
      LOG.ev("ek", o, k, c, size(o));
      erased(o, k);
      if (rng.chance(mix.probe, 1000)) probe(o, k, rng.below(2));
    } else {
      auto it = x.find(key);
      if (it == x.end()) {
        LOG.ev("fnd", o, k, 0, 0);
        return;
      }
      auto nx = x.erase(it);
      int r = rank(x, nx);
      LOG.ev("ep", o, k, r, payz(x, nx), size(o));
      erased(o, k);
      maybe_walk(o, nx, r);
      if (r > 0) maybe_write(o, nx, r);
    }
  }
  void del_alias(int o, int k) {  // erase by a reference to the stored key
    Tree& x = *t[o];
    auto it = x.find(KM::key(k, rrep()));
    if (it == x.end()) {
      LOG.ev("fnd", o, k, 0, 0);
      return;
    }
    const K& kr = it->first;
    switch (rng.below(4)) {
      case 0: {
        auto f = x.find(kr);
        LOG.ev("fnd", o, k, rank(x, f), payz(x, f));
        break;
      }
      case 1: {
        auto f = x.lower_bound(kr);
        LOG.ev("lb", o, k, rank(x, f), payz(x, f));
        auto u = x.upper_bound(kr);
        LOG.ev("ub", o, k, rank(x, u), payz(x, u));
        break;
      }
      default: {
        int c = static_cast<int>(x.erase(kr));
        LOG.ev("ek", o, k, c, size(o));
        erased(o, k);
      }
    }
  }
  void del_range(int o, int len) {
    Tree& x = *t[o];
    int k1 = present(o);
    if (k1 == 0) return;
    auto a = sh[o].find(k1), b = a;
    for (int i = 0; i < len && b != sh[o].end(); ++i) ++b;
    bool to_end = rng.chance(1, 8);
    bool empty = rng.chance(1, 10);
    if (rng.chance(1, 8)) a = sh[o].begin();
    k1 = *a;
    int k2 = empty ? k1 : to_end || b == sh[o].end() ? 0 : *b;
    if (empty && rng.chance(1, 3)) k1 = k2 = 0;
    auto i1 = k1 == 0 ? x.end() : x.find(KM::key(k1, rrep()));
    auto i2 = k2 == 0 ? x.end() : x.find(KM::key(k2, rrep()));
    auto r = x.erase(i1, i2);
    int rk = rank(x, r);
    LOG.ev("erng", o, k1, k2, rk, payz(x, r), size(o));
    if (k1 != 0)
      sh[o].erase(sh[o].find(k1), k2 == 0 ? sh[o].end() : sh[o].find(k2));
    maybe_walk(o, r, rk);
    if (rng.chance(1, 4)) scan(o);
  }
  // erase loop driven by the returned position: every stride-th element
  void erase_loop(int o, int lo, int cnt, int stride) {
    Tree& x = *t[o];
    auto it = x.lower_bound(KM::key(lo, 0));
    int r = rank(x, it);
    LOG.ev("lb", o, lo, r, payz(x, it));
    for (int i = 0; i < cnt && it != x.end(); ++i) {
      int k = rank(x, it);
      if (stride > 1 && i % stride != 0) {
        ++it;
        std::vector<int> ds{1}, ks{rank(x, it)};
        LOG.ev("walk", o, k, ds, ks);
        continue;
      }
      it = x.erase(it);
      LOG.ev("ep", o, k, rank(x, it), payz(x, it), size(o));
      erased(o, k);
    }
  }
  void clear(int o) {
    t[o]->clear();
    LOG.ev("clr", o, size(o));
    sh[o].clear();
    size_ev(o);
    LOG.ev("ok", o, t[o]->begin() == t[o]->end() ? 1 : 0);
    LOG.ev("ok", o, t[o]->rbegin() == t[o]->rend() ? 1 : 0);
  }

  void step_put(int o, int k) {
    if (k <= 0) return;
    if (inject && rng.chance(3, 4)) return put_faulty(o, k);
    if (rng.chance(mix.alias, 1000)) put_alias(o, k); else put(o, k);
    observe(o);
    live();
  }
  void step_del(int o, int k) {
    if (k <= 0) return;
    if (rng.chance(mix.alias, 1000)) del_alias(o, k); else del(o, k);
    observe(o);
    live();
  }
  void live() {
    if constexpr (VM::tokens) {
      long c = Tok::live;
      for (const V* x : mine) c -= VM::get(*x) != 1;
      LOG.ev("live", static_cast<int>(c));
    }
  }

  // ------------------------------------------------------------------- phases
  // grow until `target` elements, order: 0 ascending 1 descending 2 random
  // 3 middle-out 4 blocks
  void grow(int o, int target, int order) {
    target = std::min(target, U);
    int cur = order == 1 ? U : order == 3 ? U / 2 : 1, lo = U / 2, hi = U / 2;
    int guard = 3 * U;
    while (static_cast<int>(sh[o].size()) < target && guard-- > 0) {
      int k = 0;
      switch (order) {
        case 0: while (cur <= U && sh[o].contains(cur)) ++cur; k = cur; break;
        case 1: while (cur >= 1 && sh[o].contains(cur)) --cur; k = cur; break;
        case 3:
          while (lo >= 1 && sh[o].contains(lo)) --lo;
          while (hi <= U && sh[o].contains(hi)) ++hi;
          k = (rng.chance(1, 2) && lo >= 1) || hi > U ? lo : hi;
          break;
        case 4:
          if (rng.chance(1, 12) || sh[o].contains(cur)) cur = absent(o);
          k = cur;
          cur = cur % U + 1;
          break;
        default: k = absent(o);
      }
      if (k < 1 || k > U) break;
      if (rng.chance(1, 25)) step_put(o, present(o));  // existing key
      step_put(o, k);
    }
  }
  // shrink until `target` remain: 0 from the front 1 from the back 2 random
  // 3 a contiguous block 4 alternating ends 5 every other element
  void shrink(int o, int target, int order) {
    int cur = rng.in(1, U), guard = 3 * U;
    bool flip = false;
    while (static_cast<int>(sh[o].size()) > target && guard-- > 0) {
      int k = 0;
      switch (order) {
        case 0: k = *sh[o].begin(); break;
        case 1: k = *sh[o].rbegin(); break;
        case 3: {
          auto it = sh[o].lower_bound(cur);
          k = it == sh[o].end() ? *sh[o].rbegin() : *it;
          break;
        }
        case 4: k = (flip = !flip) ? *sh[o].begin() : *sh[o].rbegin(); break;
        case 5: {
          auto it = sh[o].upper_bound(cur);
          if (it != sh[o].end()) ++it;
          k = it == sh[o].end() ? *sh[o].begin() : *it;
          cur = k;
          break;
        }
        default: k = present(o);
      }
      if (rng.chance(1, 25)) step_del(o, absent(o));  // absent key
      step_del(o, k);
      if (mix.erng > 0 && rng.chance(mix.erng, 60))
        del_range(o, rng.chance(1, 4) ? rng.in(1, U / 4 + 1) : rng.in(1, 12));
    }
  }
  void mixed(int o, int steps, int pin) {  // pin of 16 are insertions
    for (int i = 0; i < steps; ++i) {
      int k = rng.in(1, U);
      if (rng.chance(pin, 16)) step_put(o, rng.chance(3, 4) ? absent(o) : k);
      else step_del(o, rng.chance(7, 8) ? present(o) : k);
      if (mix.erng > 0 && rng.chance(mix.erng, 400)) del_range(o, rng.in(1, 20));
      if (mix.clear > 0 && rng.chance(mix.clear, 2000)) clear(o);
    }
  }
  // insert and erase around one spot
  void local(int o, int steps) {
    int c = rng.in(1, U), w = rng.in(4, 40);
    for (int i = 0; i < steps; ++i) {
      int k = std::clamp(c + rng.in(-w, w), 1, U);
      if (rng.chance(1, 2)) step_put(o, k); else step_del(o, k);
    }
  }

  void begin_trace() {
    LOG.ev("cfg", 0, Cfg::L, Cfg::I, Cfg::M == SearchMode::Binary ? 0 : 1);
  }
  void make(int o) {
    t[o] = std::make_unique<Tree>(Cfg::A::template make<K, V>(o, rng));
    sh[o].clear();
    LOG.ev("new", o);
  }
  void make_list(int o) {
    std::vector<typename Tree::value_type> v;
    std::vector<int> l;
    int n = rng.chance(1, 3) ? rng.below(4) : rng.in(1, 2 * U / 3);
    int base = rng.in(1, U);
    bool seq = rng.chance(1, 3);
    sh[o].clear();
    for (int i = 0; i < n; ++i) {
      int k = seq ? (base + i - 1) % U + 1 : rng.in(1, U), x = fresh();
      K key = KM::key(k, rrep());
      int rep = KM::rep(key);
      v.emplace_back(key, VM::make(x));
      l.push_back(k);
      l.push_back(rep * REP + x);
      sh[o].insert(k);
    }
    auto a = Cfg::A::template make<K, V>(o, rng);
    if (n == 0) t[o] = std::make_unique<Tree>(std::initializer_list<typename Tree::value_type>{}, a);
    else if (n == 1) t[o] = std::make_unique<Tree>(std::initializer_list<typename Tree::value_type>{v[0]}, a);
    else if (n == 3) t[o] = std::make_unique<Tree>(std::initializer_list<typename Tree::value_type>{v[0], v[1], v[2]}, a);
    else t[o] = std::make_unique<Tree>(v.begin(), v.end(), a);
    LOG.ev("newl", o, l);
  }
  void destroy(int o) {
    t[o].reset();
    sh[o].clear();
    LOG.ev("del", o);
    live();
  }
  void check_all(int o) {
    if (rng.chance(mix.bounds + 100, 1000)) table(o);
    scan(o);
    bscan(o);
    rscan(o);
    size_ev(o);
    if (mix.shape > 0) shape();
  }
  void comparators(int o) {
    auto kc = t[o]->key_comp();
    auto vc = t[o]->value_comp();
    for (int i = 0; i < 6; ++i) {
      int a = rng.in(1, U), b = rng.chance(1, 3) ? a : rng.in(1, U);
      K ka = KM::key(a, rrep()), kb = KM::key(b, rrep());
      LOG.ev("cmp", a, b, kc(ka, kb) ? 1 : 0,
             vc(typename Tree::value_type(ka, VM::make(2)),
                typename Tree::value_type(kb, VM::make(3))) ? 1 : 0);
    }
  }

  // random life of one tree, `budget` updates roughly
  void life(int o, int phases) {
    for (int i = 0; i < phases; ++i) {
      bool small = static_cast<int>(sh[o].size()) < U / 3;
      switch (small && (i == 0 || rng.chance(2, 3)) ? 0 : rng.below(7)) {
        case 0: case 1: grow(o, rng.in(3 * U / 4, U), rng.below(5)); break;
        case 2: case 3: shrink(o, rng.chance(1, 3) ? 0 : rng.in(0, U / 4), rng.below(6)); break;
        case 4: mixed(o, rng.in(20, U), rng.in(4, 12)); break;
        case 5: local(o, rng.in(20, 200)); break;
        case 6:
          if (mix.loops > 0) {
            int c = rng.in(1, 3);
            for (int j = 0; j < c; ++j)
              erase_loop(o, rng.in(1, U), rng.chance(1, 3) ? U : rng.in(5, 60), rng.in(1, 3));
          } else mixed(o, rng.in(20, U / 2), 8);
          break;
      }
      if (rng.chance(1, 2)) check_all(o);
      if (mix.clear > 0 && rng.chance(1, 5)) clear(o);
    }
    check_all(o);
  }
  // systematic: every growth order followed by every shrink order
  void matrix(int o, int only = -1) {
    int id = 0;
    for (int g = 0; g < 5; ++g)
      for (int s = 0; s < 6; ++s, ++id) {
        if (only >= 0 && id % 8 != only) continue;
        grow(o, U - rng.below(U / 4 + 1), g);
        check_all(o);
        shrink(o, 0, s);
        check_all(o);
      }
  }

  // trees of as many levels as U keys allow (five and more at the smallest
  // node sizes): grown in order, copied, moved, shrunk, thrown away whole
  void tall(int n) {
    for (int i = 0; i < n; ++i) {
      if (!t[1]) make(1);
      int g = rng.below(4);
      grow(1, U - rng.below(U / 8 + 1), g > 1 ? g + 1 : g);
      check_all(1);
      if (mix.shape > 0) shape();
      for (int j = rng.below(12); j > 0; --j) put_or_del();
      int o = NO >= 2 ? 2 : 1;
      if (o == 2) {
        if (t[2]) destroy(2);
        if (rng.chance(1, 2)) {
          t[2] = std::make_unique<Tree>(std::as_const(*t[1]));
          LOG.ev("cpy", 2, 1);
          sh[2] = sh[1];
        } else {
          t[2] = std::make_unique<Tree>(std::move(*t[1]));
          LOG.ev("mov", 2, 1);
          sh[2] = sh[1];
          sh[1].clear();
        }
        check_all(2);
        check_all(1);
        live();
        if (mix.shape > 0) shape();
        if (sh[1].empty() && rng.chance(1, 2)) {
          *t[1] = std::as_const(*t[2]);
          LOG.ev("asg", 1, 2);
          sh[1] = sh[2];
          check_all(1);
        }
      }
      shrink(o, rng.chance(2, 3) ? 0 : rng.in(1, U / 2), rng.below(6));
      if (rng.chance(1, 2)) local(o, 40);
      check_all(o);
      if (mix.shape > 0) shape();
      int e = rng.below(3);
      for (int j = 1; j <= NO; ++j)
        if (t[j] && e != 0) { if (e == 1) clear(j); else destroy(j); }
      live();
    }
    for (int o = 1; o <= NO; ++o)
      if (t[o]) {
        check_all(o);
        destroy(o);
      }
  }
  void put_or_del() {
    if (rng.chance(1, 2) && !sh[1].empty()) step_del(1, present(1));
    else if (static_cast<int>(sh[1].size()) < U) step_put(1, absent(1));
  }

  // histories generated from BTree.tla by TLC, one per line: k inserts key k,
  // -k erases it; !k marks calls that change more than one leaf
  void paths(const std::string& file) {
    std::ifstream f(file);
    if (!f) Log::fatal("no file of histories");
    std::string line, w;
    while (std::getline(f, line)) {
      make(1);
      std::istringstream is(line);
      while (is >> w) {
        bool mark = w[0] == '!';
        int k = std::atoi(w.c_str() + (mark ? 1 : 0));
        if (k == 0 || k > U || k < -U) Log::fatal("bad history");
        if (k > 0) step_put(1, k); else step_del(1, -k);
        if (mark && mix.shape > 0) shape();
        else if (mark && rng.chance(1, 3)) { if (rng.chance(1, 2)) scan(1); else bscan(1); }
      }
      check_all(1);
      if (rng.chance(1, 3)) clear(1);
      destroy(1);
    }
  }

  // ------------------------------------------------- several trees (C08)
  void adopt(int o, int src) { sh[o] = sh[src]; }
  void objects(int steps) {
    for (int i = 0; i < steps; ++i) {
      int o = rng.in(1, NO), p = rng.in(1, NO);
      if (!t[o]) {
        int c = rng.below(8);
        if (c < 2 || !t[p]) {
          if (rng.chance(1, 3)) make_list(o); else make(o);
        } else if (c < 5) {
          t[o] = std::make_unique<Tree>(std::as_const(*t[p]));
          LOG.ev("cpy", o, p);
          sh[o] = sh[p];
        } else {
          t[o] = std::make_unique<Tree>(std::move(*t[p]));
          LOG.ev("mov", o, p);
          sh[o] = sh[p];
          sh[p].clear();
        }
        check_all(o);
        if (t[p]) check_all(p);
        live();
        continue;
      }
      switch (rng.below(10)) {
        case 0: destroy(o); break;
        case 1: case 2:
          if (t[p]) {
            *t[o] = std::as_const(*t[p]);
            LOG.ev("asg", o, p);
            sh[o] = sh[p];
            check_all(o);
            check_all(p);
          }
          break;
        case 3: case 4:
          if (t[p]) {
            Tree* src = t[p].get();
            *t[o] = std::move(*src);
            LOG.ev("masg", o, p);
            if (o != p) {
              sh[o] = sh[p];
              sh[p].clear();
            }
            check_all(o);
            check_all(p);
          }
          break;
        case 5: case 6:
          if (t[p]) {
            t[o]->swap(*t[p]);
            LOG.ev("swp", o, p);
            std::swap(sh[o], sh[p]);
            check_all(o);
            check_all(p);
          }
          break;
        default:
          switch (rng.below(5)) {
            case 0: grow(o, rng.in(1, U), rng.below(5)); break;
            case 1: shrink(o, rng.in(0, U / 3), rng.below(6)); break;
            case 2: clear(o); break;
            default: mixed(o, rng.in(3, 40), rng.in(3, 13));
          }
      }
      live();
    }
    for (int o = 1; o <= NO; ++o)
      if (t[o]) check_all(o);
    int start = rng.in(1, NO);
    for (int j = 0; j < NO; ++j) {
      int o = (start + j - 1) % NO + 1;
      if (t[o]) destroy(o);
    }
  }

  // ------------------------------------------------- injected failures (C15)
  // Runs call() with a failure at its first point, its second, ... until it
  // gets through. after() records what a failure left behind.
  template <class F, class G>
  void faulty(F call, G after, int every = 1, int width = 1) {
    for (long i = 0;; i += rng.chance(1, every) ? 1 : rng.in(1, width)) {
      Fault::arm(i);
      bool failed = false, known = false;
      try {
        call();
      } catch (const Fault::Injected&) {
        failed = known = true;
      } catch (const std::bad_alloc&) {
        failed = known = true;
      }
      Fault::off();
      if (failed != Fault::fired || failed != known) LOG.ev("ok", 0, 0);  // the error was swallowed
      if (!failed) return;
      after();
    }
  }
  void left(int o) {  // a failed operation changed nothing
    LOG.ev("fail", o);
    size_ev(o);
    live();
    if (rng.chance(mix.scan, 1000)) {
      int c = rng.below(3);
      if (c == 0) scan(o); else if (c == 1) bscan(o); else rscan(o);
    }
    if (rng.chance(mix.shape, 1000)) shape();
    if (rng.chance(mix.probe, 1000)) probe(o, rng.in(1, U), rng.below(2));
  }
  void put_faulty(int o, int k) {
    Tree& x = *t[o];
    K key = KM::key(k, rrep());
    int v = fresh(), p = KM::rep(key) * REP + v;
    It it = x.end();
    bool b = false;
    V val = VM::make(v);
    mine = {&val};
    auto res = [&](std::pair<It, bool> r) { it = r.first; b = r.second; };
    auto again = [&] { left(o); };
    switch (rng.below(9)) {
      case 0: {
        faulty([&] { res(x.insert(key, val)); }, again);
        ins_ev("ins", o, k, p, b, it);
        break;
      }
      case 1: {
        typename Tree::value_type pr(key, val);
        mine.push_back(&pr.second);
        faulty([&] { res(x.insert(pr)); }, again);
        mine.pop_back();
        ins_ev("ins", o, k, p, b, it);
        break;
      }
      case 2: {
        faulty([&] { res(x.insert_or_assign(key, val)); }, again);
        ins_ev("ioa", o, k, p, b, it);
        break;
      }
      case 3: {
        faulty([&] { res(x.insert_or_assign(key, std::move(val))); },
               [&] { left(o); val = VM::make(v); });
        ins_ev("ioa", o, k, p, b, it);
        break;
      }
      case 4: {
        V* ref = nullptr;
        faulty([&] { ref = &x[key]; }, again);
        LOG.ev("sub", o, k, KM::rep(key) * REP + 1, VM::get(*ref), size(o));
        sh[o].insert(k);
        faulty([&] { *ref = val; }, [&] { LOG.ev("fail", o); });
        LOG.ev("wr", o, k, v);
        break;
      }
      case 5: {
        faulty([&] { res(x.try_emplace(key, std::as_const(val))); }, again);
        ins_ev("ins", o, k, p, b, it);
        break;
      }
      case 6: {
        if constexpr (std::is_constructible_v<V, int>) {
          int raw = VM::tokens ? v : v - 1;
          faulty([&] { res(x.try_emplace(key, raw)); }, again);
        } else {
          faulty([&] { res(x.try_emplace(key, std::as_const(val))); }, again);
        }
        ins_ev("ins", o, k, p, b, it);
        break;
      }
      case 7: {
        faulty([&] { res(x.emplace(key, std::as_const(val))); }, again);
        ins_ev("ins", o, k, p, b, it);
        break;
      }
      default: {
        auto h = x.lower_bound(KM::key(rng.in(1, U), 0));
        bool had = sh[o].contains(k);
        faulty([&] { it = x.emplace_hint(h, key, std::as_const(val)); }, again);
        ins_ev("ins", o, k, p, !had, it);
      }
    }
    mine.clear();
    val = VM::make(1);
    live();
    observe(o);
  }
  // construction of object o from object p or from a list
  void construct_faulty(int o, int p) {
    int every = size(p) < 12 ? 1 : 6, width = size(p) / 3;
    if (rng.chance(1, 2)) {
      faulty([&] { t[o] = std::make_unique<Tree>(std::as_const(*t[p])); }, [&] { left(p); }, every, width);
      LOG.ev("cpy", o, p);
      sh[o] = sh[p];
    } else {
      std::vector<typename Tree::value_type> v;
      std::vector<int> l;
      int n = rng.chance(1, 2) ? rng.in(1, 20) : rng.in(1, U / 2);
      sh[o].clear();
      v.reserve(static_cast<std::size_t>(n));
      for (int i = 0; i < n; ++i) {
        int k = rng.in(1, U), x = fresh();
        K key = KM::key(k, rrep());
        v.emplace_back(key, VM::make(x));
        l.push_back(k);
        l.push_back(KM::rep(key) * REP + x);
        sh[o].insert(k);
      }
      auto a = Cfg::A::template make<K, V>(o, rng);
      faulty([&] { t[o] = std::make_unique<Tree>(v.begin(), v.end(), a); },
             [&] { LOG.ev("fail", p); }, n < 12 ? 1 : 5, n / 2);
      v.clear();
      LOG.ev("newl", o, l);
    }
    live();
    check_all(o);
    check_all(p);
  }
  void assign_faulty(int o, int p) {
    long points = rng.in(0, 2 * size(p) + 4);
    Fault::arm(points);
    try {
      *t[o] = std::as_const(*t[p]);
      Fault::off();
      LOG.ev("asg", o, p);
      sh[o] = sh[p];
    } catch (...) {
      Fault::off();
      std::vector<int> v;
      int lim = U + 5;
      sh[o].clear();
      for (auto it = t[o]->begin(); it != t[o]->end() && --lim > 0; ++it) {
        v.push_back(KM::rank(it->first));
        v.push_back(pay(it));
        sh[o].insert(v[v.size() - 2]);
      }
      LOG.ev("failasg", o, v);
    }
    live();
    check_all(o);
    check_all(p);
  }
  void clear_faulty(int o) {
    faulty([&] { t[o]->clear(); }, [&] { left(o); });
    LOG.ev("clr", o, size(o));
    sh[o].clear();
    live();
    check_all(o);
  }
  // ------------------------------------------------------- readers (C22)
  // Threads read all trees at once, nothing may be stored into them.
  void read_all(int steps) {
    for (int i = 0; i < steps; ++i) {
      int o = rng.in(1, NO);
      if (!t[o]) continue;
      switch (rng.below(12)) {
        case 0: if (rng.chance(1, 3)) scan(o); break;
        case 1: if (rng.chance(1, 3)) bscan(o); break;
        case 2: if (rng.chance(1, 3)) rscan(o); break;
        case 3: rwalk(o, rng.in(1, 20)); break;
        case 4: case 5: size_ev(o); break;
        default: probe(o, rng.in(1, U), rng.below(2));
      }
    }
  }
  void read_phase(int threads, int steps, bool protect) {
    std::vector<std::thread> th;
    std::vector<Log> logs(static_cast<std::size_t>(threads));
    std::atomic<int> ready = 0;
    if (protect) Guard::protect(true);
    Guard::writes = 0;
    Guard::races = 0;
    for (int i = 0; i < threads; ++i)
      th.emplace_back([&, i, seed = rng.next()] {
        MapDriver r(seed, U);
        r.mix = mix;
        r.mix.write = 0;
        for (int o = 1; o <= NO; ++o) {
          r.t[o].reset(t[o].get());
          r.sh[o] = sh[o];
        }
        LOG.buffer(std::size_t(64) << 20);
        ++ready;
        while (ready < threads) std::this_thread::yield();
        r.read_all(steps);
        for (int o = 1; o <= NO; ++o) static_cast<void>(r.t[o].release());
        logs[static_cast<std::size_t>(i)] = LOG;
      });
    for (auto& x : th) x.join();
    if (protect) Guard::protect(false);
    for (auto& l : logs) LOG.append(l);
    LOG.ev("stores", 0, static_cast<int>(Guard::writes), static_cast<int>(Guard::races));
  }
  void readers(int rounds, int threads, int steps, bool protect) {
    Guard::install();
    for (int o = 1; o <= NO; ++o) make(o);
    read_phase(threads, steps, protect);
    for (int r = 0; r < rounds; ++r) {
      int o = rng.in(1, NO);
      switch (rng.below(4)) {
        case 0: grow(o, rng.in(1, U), rng.below(5)); break;
        case 1: shrink(o, rng.in(0, U / 2), rng.below(6)); break;
        case 2: mixed(o, rng.in(3, U / 2), rng.in(3, 13)); break;
        default: if (rng.chance(1, 4)) clear(o); else grow(o, rng.in(1, 40), rng.below(5));
      }
      read_phase(threads, steps, protect);
    }
    for (int o = 1; o <= NO; ++o) destroy(o);
  }
  // `rounds` lives: grow with failures in every insertion, change, copy, clear
  void faults(int rounds) {
    for (int r = 0; r < rounds; ++r) {
      int o = rng.in(1, NO);
      if (!t[o]) {
        int p = rng.in(1, NO);
        if (t[p] && rng.chance(3, 4)) construct_faulty(o, p);
        else {
          auto a = Cfg::A::template make<K, V>(o, rng);
          faulty([&] { t[o] = std::make_unique<Tree>(a); }, [&] { live(); });
          sh[o].clear();
          LOG.ev("new", o);
        }
      }
      switch (rng.below(8)) {
        case 0: clear_faulty(o); break;
        case 1: {
          int p = rng.in(1, NO);
          if (t[p] && p != o) assign_faulty(o, p);
          break;
        }
        case 2: shrink(o, rng.in(0, U / 3), rng.below(6)); break;
        case 3: if (rng.chance(1, 2)) destroy(o); break;
        default: {
          int target = rng.chance(1, 2) ? U : rng.in(1, U), order = rng.below(5);
          inject = true;
          if (rng.chance(2, 3)) grow(o, target, order);
          else mixed(o, rng.in(10, U), rng.in(6, 14));
          inject = false;
          check_all(o);
        }
      }
    }
    for (int o = 1; o <= NO; ++o)
      if (t[o]) {
        check_all(o);
        destroy(o);
      }
  }
};

// The capacities chosen for nodes when the user names none.
template <int N>
struct Bytes { unsigned char b[N]; };
inline void default_capacities() {
  std::vector<std::vector<int>> rows;
  auto add = [&]<class K, class V>(std::type_identity<K>, std::type_identity<V>) {
    using T = fc::btree<K, V>;
    // what an unnamed capacity is in the tree's own type
    auto caps = []<class A, class B, std::size_t L, std::size_t I, class C, SearchMode M, class D>(
                    std::type_identity<fc::btree<A, B, L, I, C, M, D>>) {
      return std::pair<int, int>(static_cast<int>(L), static_cast<int>(I));
    }(std::type_identity<T>{});
    rows.push_back({static_cast<int>(sizeof(K)), static_cast<int>(sizeof(V)), static_cast<int>(sizeof(void*)),
                    caps.first, caps.second});
  };
  auto key = [&]<class K>(std::type_identity<K> k) {
    [&]<int... N>(std::integer_sequence<int, N...>) {
      (add(k, std::type_identity<Bytes<(N + 1) * 4>>{}), ...);
      (add(k, std::type_identity<Bytes<(N + 1) * 37>>{}), ...);
    }(std::make_integer_sequence<int, 72>{});
    add(k, std::type_identity<char>{});
    add(k, std::type_identity<Bytes<2047>>{});
    add(k, std::type_identity<Bytes<5000>>{});
  };
  key(std::type_identity<char>{});
  key(std::type_identity<short>{});
  key(std::type_identity<int>{});
  key(std::type_identity<long>{});
  key(std::type_identity<std::string>{});
  // keys of other sizes: compared by their first byte, here only measured
  auto wide = [&]<int... N>(std::integer_sequence<int, N...>) {
    (rows.push_back({(N + 1) * 3, (N % 7) * 9 + 1, static_cast<int>(sizeof(void*)),
                     static_cast<int>(fc::default_leaf_node_size<Bytes<(N + 1) * 3>, Bytes<(N % 7) * 9 + 1>>()),
                     static_cast<int>(fc::default_internal_node_size<Bytes<(N + 1) * 3>>())}), ...);
  };
  wide(std::make_integer_sequence<int, 120>{});
  LOG.ev("dcap", rows);
}

template <class Cfg>
int map_main(int argc, char** argv) {
  LOG.open(sarg(argc, argv, "-o", "trace.ndjson"));
  std::uint64_t seed = static_cast<std::uint64_t>(arg(argc, argv, "-seed", 1));
  int U = static_cast<int>(arg(argc, argv, "-U", 200));
  int reps = static_cast<int>(arg(argc, argv, "-n", 10));
  std::string prog = sarg(argc, argv, "-prog", "life");
  Cfg::KM::init(U);
  MapDriver<Cfg> d(seed, U);
  Mix& m = d.mix;
  // per-mille and weight overrides: -x name value
  for (int i = 1; i + 2 < argc; ++i)
    if (std::strcmp(argv[i], "-x") == 0) {
      std::string n = argv[i + 1];
      int v = std::atoi(argv[i + 2]);
      struct { const char* s; int* p; } tab[] = {
          {"insert", &m.insert}, {"ioa", &m.ioa}, {"sub", &m.sub}, {"te", &m.te},
          {"emplace", &m.emplace}, {"hint", &m.hint}, {"ekey", &m.ekey},
          {"epos", &m.epos}, {"erng", &m.erng}, {"clear", &m.clear},
          {"probe", &m.probe}, {"walk", &m.walk}, {"scan", &m.scan},
          {"write", &m.write}, {"alias", &m.alias}, {"bounds", &m.bounds},
          {"loops", &m.loops}, {"shape", &m.shape}, {"cost", &m.cost}};
      bool ok = false;
      for (auto& e : tab)
        if (n == e.s) { *e.p = v; ok = true; }
      if (!ok) Log::fatal("unknown mix name");
    }
  d.begin_trace();
  if (prog == "life") {
    d.make(1);
    d.comparators(1);
    d.life(1, reps);
    d.destroy(1);
  } else if (prog == "matrix") {
    d.make(1);
    d.matrix(1, reps);
    d.destroy(1);
  } else if (prog == "defaults") {
    default_capacities();
  } else if (prog == "tall") {
    d.tall(reps);
  } else if (prog == "paths") {
    d.paths(sarg(argc, argv, "-f", ""));
  } else if (prog == "objects") {
    d.objects(reps);
  } else if (prog == "readers") {
    d.readers(reps, static_cast<int>(arg(argc, argv, "-threads", 4)), static_cast<int>(arg(argc, argv, "-steps", 60)),
              arg(argc, argv, "-guard", 1) != 0);
  } else if (prog == "faults") {
    d.faults(reps);
    std::fprintf(stderr, "FAULTS %ld\n", Fault::total);
  } else {
    Log::fatal("unknown program");
  }
  if (records<typename Cfg::A>) LOG.ev("none", 0);
  LOG.close();
  return 0;
}

}  // namespace vh
