// Conformance driver for dense_map: records every call as a DMapTrace event.
// Objects 1, 3 have capacity CA, objects 2, 4 capacity CB.
#pragma once
#include <fast_containers/dense_map.hpp>
#include <fstream>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>

#include "common.hpp"

namespace vh {
namespace fc = kressler::fast_containers;
using fc::SearchMode;

template <class KM_, class V_, int CA_, int CB_, SearchMode M_>
struct DConfig {
  using KM = KM_;
  using V = V_;
  static constexpr int CA = CA_, CB = CB_;
  using A = fc::dense_map<typename KM::K, V, static_cast<std::size_t>(CA_), typename KM::C, M_>;
  using B = fc::dense_map<typename KM::K, V, static_cast<std::size_t>(CB_), typename KM::C, M_>;
};

template <class Cfg>
class DenseDriver {
 public:
  using KM = typename Cfg::KM;
  using K = typename KM::K;
  using V = typename Cfg::V;
  using VM = VT<V>;
  using A = typename Cfg::A;
  using B = typename Cfg::B;
  static constexpr int NO = 4;
  // objects live in memory that can be made read-only
  struct Drop {
    template <class M>
    void operator()(M* p) const {
      p->~M();
      Guard::give(p);
    }
  };
  template <class M>
  using Ptr = std::unique_ptr<M, Drop>;
  template <class M, class... X>
  static Ptr<M> make_map(X&&... x) {
    void* p = Guard::take(sizeof(M));
    try {
      return Ptr<M>(new (p) M(std::forward<X>(x)...));
    } catch (...) {
      Guard::give(p);
      throw;
    }
  }
  Rng rng;
  int U;
  int alias = 0, vctr = 0;
  bool walks = true;
  std::vector<const V*> mine;  // values the driver holds itself
  Ptr<A> a[2];
  Ptr<B> b[2];
  std::set<int> sh[NO + 1];  // shadow, chooses arguments only

  DenseDriver(std::uint64_t seed, int u) : rng(seed), U(u) {}

  template <class F>
  void with(int o, F f) {
    if (o % 2 == 1) f(*a[o / 2]); else f(*b[o / 2 - 1]);
  }
  bool exists(int o) { return o % 2 == 1 ? a[o / 2] != nullptr : b[o / 2 - 1] != nullptr; }
  int cap(int o) { return o % 2 == 1 ? Cfg::CA : Cfg::CB; }
  int fresh() {
    vctr = (vctr + 1) % (VM::maxv - 2);
    return vctr + 2;
  }
  int rrep() { return KM::reps > 1 ? rng.below(KM::reps) : 0; }
  template <class M, class It>
  int rank(M& x, const It& it) { return it == x.end() ? 0 : KM::rank(it->first); }
  template <class M, class It>
  int payz(M& x, const It& it) {
    return it == x.end() ? 0 : KM::rep(it->first) * REP + VM::get(it->second);
  }
  int present(int o) {
    if (sh[o].empty()) return 0;
    auto it = sh[o].lower_bound(rng.in(1, U));
    return it == sh[o].end() ? *sh[o].begin() : *it;
  }
  int absent(int o) {
    int k = rng.in(1, U);
    for (int i = 0; i < U; ++i, k = k % U + 1)
      if (!sh[o].contains(k)) return k;
    return 0;
  }
  template <class M>
  int size(M& x) { return static_cast<int>(x.size()); }

  void make(int o) {
    if (o % 2 == 1) a[o / 2] = make_map<A>(); else b[o / 2 - 1] = make_map<B>();
    sh[o].clear();
    LOG.ev("new", o, cap(o));
  }
  void destroy(int o) {
    if (o % 2 == 1) a[o / 2].reset(); else b[o / 2 - 1].reset();
    sh[o].clear();
    LOG.ev("del", o);
    live();
  }
  void live() {
    if constexpr (VM::tokens) {
      long c = Tok::live;
      for (const V* x : mine) c -= VM::get(*x) != 1;
      LOG.ev("live", static_cast<int>(c));
    }
  }

  void sz(int o) {
    with(o, [&](auto& x) {
      LOG.ev("sz", o, size(x), x.empty() ? 1 : 0, x.full() ? 1 : 0, static_cast<int>(x.capacity()));
    });
  }
  template <class It, class E>
  void list(const char* ev, int o, It i, E e, int var) {
    std::vector<int> v;
    int lim = cap(o) + 3;
    while (i != e && --lim >= 0) {
      if (var == 0) {
        v.push_back(KM::rank(i->first));
        v.push_back(KM::rep(i->first) * REP + VM::get(i->second));
        ++i;
      } else {
        std::pair<K, V> p = *i++;
        v.push_back(KM::rank(p.first));
        v.push_back(KM::rep(p.first) * REP + VM::get(p.second));
      }
    }
    LOG.ev(ev, o, v);
  }
  void scan(int o) {
    int var = rng.below(2);
    with(o, [&](auto& x) {
      const auto& c = x;
      switch (rng.below(5)) {
        case 0: list("scan", o, x.begin(), x.end(), var); break;
        case 1: list("scan", o, c.begin(), c.end(), var); break;
        case 2: list("scan", o, c.cbegin(), c.cend(), var); break;
        case 3: list("rscan", o, x.rbegin(), x.rend(), 0); break;
        default: list("rscan", o, c.crbegin(), c.crend(), 0); break;
      }
    });
  }
  void scan_fwd(int o) {
    with(o, [&](auto& x) { list("scan", o, x.begin(), x.end(), 0); });
  }
  void table(int o) {
    std::vector<int> lb, ub, fd;
    with(o, [&](auto& x) {
      const auto& c = x;
      bool cc = rng.chance(1, 2);
      for (int k = 1; k <= U; ++k) {
        K key = KM::key(k, rrep());
        if (cc) {
          lb.push_back(rank(c, c.lower_bound(key)));
          ub.push_back(rank(c, c.upper_bound(key)));
          fd.push_back(payz(c, c.find(key)));
        } else {
          lb.push_back(rank(x, x.lower_bound(key)));
          ub.push_back(rank(x, x.upper_bound(key)));
          fd.push_back(payz(x, x.find(key)));
        }
      }
    });
    LOG.ev("tab", o, lb, ub, fd);
  }
  // the element at a position as (rank, payload), (0, 0) at the end
  template <class R>
  static std::vector<int> elem(R&& r) {
    return {KM::rank(r.first), KM::rep(r.first) * REP + VM::get(r.second)};
  }
  template <class It>
  std::vector<int> el(const It& i, const It& e) {
    if (i == e) return {0, 0};
    return rng.chance(1, 2) ? elem(*i) : std::vector<int>{KM::rank(i->first), KM::rep(i->first) * REP + VM::get(i->second)};
  }
  static int cut(std::ptrdiff_t x) { return x > 1000000 || x < -1000000 ? 1000001 : static_cast<int>(x); }
  template <class It>
  void random_access(int o, int kind, It beg, It end, int n) {
    int i = rng.in(0, n), j = rng.in(0, n), d = j - i;
    It p = beg + i, q = p;
    switch (rng.below(6)) {
      case 0: q = p + d; break;
      case 1: q = p - (-d); break;
      case 2: q += d; break;
      case 3: q -= -d; break;
      case 4: q = d + p; break;
      default:
        for (int s = d; s > 0; --s) if (rng.chance(1, 2)) ++q; else q++;
        for (int s = d; s < 0; ++s) if (rng.chance(1, 2)) --q; else q--;
    }
    std::vector<int> sub{0, 0};
    if (j < n) sub = elem(p[d]);
    std::vector<int> cmp{q < p, q <= p, q > p, q >= p, q == p, q != p};
    LOG.ev("ra", o, kind, i, d, el(p, end), el(q, end), sub, cut(q - p), cmp);
    // single steps: the position a step returns and the one it leaves
    bool up = i < n && (i == 0 || rng.chance(1, 2)), post = rng.chance(1, 2);
    if (n == 0) return;
    It w = p, r = up ? (post ? w++ : ++w) : (post ? w-- : --w);
    LOG.ev("rs", o, kind, i, up ? 1 : -1, post ? 1 : 0, el(r, end), el(w, end), cut(w - beg));
  }
  void ra(int o) {
    with(o, [&](auto& x) {
      const auto& c = x;
      int n = size(x);
      switch (rng.below(4)) {
        case 0: random_access(o, 0, x.begin(), x.end(), n); break;
        case 1: random_access(o, 1, c.begin(), c.end(), n); break;
        case 2: random_access(o, 2, x.rbegin(), x.rend(), n); break;
        default: random_access(o, 3, c.rbegin(), c.rend(), n); break;
      }
    });
  }

  // ------------------------------------------------------------- operations
  // how: 0 ins 1 hinted 2 try_emplace 3 insert_or_assign 4 subscript
  template <class M>
  void put_ref(M& x, int o, int k, int how, const K& key, const V& val, int v) {
    int rep = KM::rep(key), p = rep * REP + v;
    const char* op = how == 0 ? "ins" : how == 1 ? "inh" : how == 2 ? "ins" : "ioa";
    try {
      auto r = [&] {
        if (how == 0) return x.insert(key, val);
        if (how == 1) {
          auto h = x.lower_bound(key);
          return x.insert_hint(h, key, val);
        }
        if (how == 2) return x.try_emplace(key, val);
        return x.insert_or_assign(key, val);
      }();
      LOG.ev(op, o, k, p, r.second ? 1 : 0, rank(x, r.first), payz(x, r.first),
             static_cast<int>(r.first - x.begin()), size(x));
      if (r.second) sh[o].insert(k);
    } catch (const std::exception&) {
      LOG.ev(op, o, k, p, 2, 0, 0, 0, size(x));
    }
  }
  void put(int o, int k, int how) {
    K key = KM::key(k, rrep());
    int v = fresh();
    with(o, [&](auto& x) {
      if (how == 4) {
        int rep = KM::rep(key);
        try {
          V& r = x[key];
          LOG.ev("sub", o, k, rep * REP + 1, VM::get(r), size(x));
          sh[o].insert(k);
          if (VM::tokens || rng.chance(1, 2)) {
            r = VM::make(v);
            LOG.ev("wr", o, k, v);
          }
        } catch (const std::exception&) {
          LOG.ev("sub", o, k, rep * REP + 1, 0, size(x));
        }
      } else if (how == 2) {
        int rep = KM::rep(key), p = rep * REP + v;
        int built = 0;
        std::pair<int, int> res{0, 0};
        int ix = 0, out = 2;
        try {
          if constexpr (VM::maker) {
            auto [it, ins] = x.try_emplace(key, typename VM::Maker{v, &built});
            out = ins ? 1 : 0;
            res = {rank(x, it), payz(x, it)};
            ix = static_cast<int>(it - x.begin());
          } else if (rng.chance(1, 3) && requires { VM::parts(v, [](auto&&...) { return 0; }); }) {
            if constexpr (requires { VM::parts(v, [](auto&&...) { return 0; }); }) {
              auto [it, ins] = VM::parts(v, [&](auto... a) { return x.try_emplace(key, a...); });
              built = out = ins ? 1 : 0;
              res = {rank(x, it), payz(x, it)};
              ix = static_cast<int>(it - x.begin());
            }
          } else {
            V val = VM::make(v);
            auto [it, ins] = x.try_emplace(key, std::move(val));
            built = ins || VM::get(val) != v ? 1 : 0;
            out = ins ? 1 : 0;
            res = {rank(x, it), payz(x, it)};
            ix = static_cast<int>(it - x.begin());
          }
        } catch (const std::exception&) {
          out = 2;
        }
        if (out == 1) {
          sh[o].insert(k);
          built = built != 0 ? 1 : 0;
        }
        LOG.ev("te", o, k, p, out, res.first, res.second, ix, size(x), built);
      } else if (how == 3 && rng.chance(1, 2)) {
        int rep = KM::rep(key), p = rep * REP + v;
        try {
          auto [it, ins] = [&] {
            if constexpr (VM::maker || requires { VM::other(v, [](auto&&) { return 0; }); })
              if (rng.chance(1, 2)) {  // converted from another type
                int built = 0;
                auto go = [&](auto&& from) { return x.insert_or_assign(key, std::forward<decltype(from)>(from)); };
                if constexpr (VM::maker) return go(typename VM::Maker{v, &built});
                else return VM::other(v, go);
              }
            return x.insert_or_assign(key, VM::make(v));
          }();
          LOG.ev("ioa", o, k, p, ins ? 1 : 0, rank(x, it), payz(x, it),
                 static_cast<int>(it - x.begin()), size(x));
          if (ins) sh[o].insert(k);
        } catch (const std::exception&) {
          LOG.ev("ioa", o, k, p, 2, 0, 0, 0, size(x));
        }
      } else {
        V val = VM::make(v);
        put_ref(x, o, k, how, key, val, v);
        if (VM::get(val) != v) LOG.ev("ok", o, 0);
      }
      if (walks && rng.chance(1, 6)) {
        auto it = x.find(key);
        if (it != x.end()) {
          int w = fresh();
          if (rng.chance(1, 2)) it->second = VM::make(w); else it.value_ref() = VM::make(w);
          LOG.ev("wr", o, k, w);
        }
      }
    });
    live();
  }
  // arguments that refer to elements of the map itself
  void put_alias(int o, int k) {
    int src = present(o);
    if (src == 0) return put(o, k, 0);
    K key = KM::key(k, rrep());
    with(o, [&](auto& x) {
      auto it = x.find(KM::key(src, 0));
      if (it == x.end()) {
        LOG.ev("fnd", o, src, 0, 0, size(x));
        return;
      }
      int v = VM::get(it->second);
      const V& vr = it.value_ref();
      const K& kr = it->first;
      if (rng.chance(1, 6)) put_ref(x, o, src, rng.below(4), kr, vr, v);
      else put_ref(x, o, k, rng.below(4), key, vr, v);
    });
    live();
  }
  void del_alias(int o) {
    int k = present(o);
    if (k == 0) return;
    with(o, [&](auto& x) {
      auto it = x.find(KM::key(k, rrep()));
      if (it == x.end()) {
        LOG.ev("fnd", o, k, 0, 0, size(x));
        return;
      }
      const K& kr = it->first;
      int c = static_cast<int>(x.erase(kr));
      LOG.ev("ek", o, k, c, size(x));
      sh[o].erase(k);
    });
    live();
  }
  void find(int o, int k, int what) {
    K key = KM::key(k, rrep());
    with(o, [&](auto& x) {
      const auto& c = x;
      bool cc = rng.chance(1, 2);
      auto rep = [&](const char* ev, auto& m, auto it) {
        LOG.ev(ev, o, k, rank(m, it), payz(m, it), static_cast<int>(it - m.begin()));
      };
      if (what == 0) { if (cc) rep("fnd", c, c.find(key)); else rep("fnd", x, x.find(key)); }
      if (what == 1) { if (cc) rep("lb", c, c.lower_bound(key)); else rep("lb", x, x.lower_bound(key)); }
      if (what == 2) { if (cc) rep("ub", c, c.upper_bound(key)); else rep("ub", x, x.upper_bound(key)); }
    });
  }
  void erase_key(int o, int k) {
    with(o, [&](auto& x) {
      int c = static_cast<int>(x.erase(KM::key(k, rrep())));
      LOG.ev("ek", o, k, c, size(x));
      sh[o].erase(k);
    });
    live();
  }
  void erase_pos(int o, int k) {
    with(o, [&](auto& x) {
      auto it = x.find(KM::key(k, rrep()));
      if (it == x.end()) {
        LOG.ev("fnd", o, k, 0, 0, size(x));
        return;
      }
      auto nx = x.erase(it);
      LOG.ev("ep", o, k, rank(x, nx), payz(x, nx), static_cast<int>(nx - x.begin()), size(x));
      sh[o].erase(k);
    });
    live();
  }
  void update_key(int o, int k, int k2) {
    with(o, [&](auto& x) {
      auto it = x.find(KM::key(k, rrep()));
      if (it == x.end()) {
        LOG.ev("fnd", o, k, 0, 0, size(x));
        return;
      }
      K key = KM::key(k2, rrep());
      x.unsafe_update_key(it, key);
      LOG.ev("upk", o, k, k2, KM::rep(key), size(x));
      sh[o].erase(k);
      sh[o].insert(k2);
    });
    live();
  }
  void update_some(int o) {
    int k = present(o);
    if (k == 0) return;
    auto it = sh[o].find(k);
    int lo = it == sh[o].begin() ? 1 : *std::prev(it) + 1;
    int hi = std::next(it) == sh[o].end() ? U : *std::next(it) - 1;
    update_key(o, k, rng.in(lo, hi));
  }
  void clear(int o) {
    with(o, [&](auto& x) {
      x.clear();
      LOG.ev("clr", o, size(x));
    });
    sh[o].clear();
    live();
  }
  void split(int s, int d, int ix) {
    with(s, [&](auto& x) {
      with(d, [&](auto& y) {
        if (static_cast<void*>(&x) == static_cast<void*>(&y)) return;
        int out = 0;
        try {
          auto pos = x.begin() + ix;
          x.split_at(pos, y);
        } catch (const std::exception&) {
          out = 2;
        }
        LOG.ev("spl", s, d, ix, out, size(x), size(y));
        if (out == 0) {
          auto it = sh[s].begin();
          std::advance(it, std::min<int>(ix, static_cast<int>(sh[s].size())));
          sh[d].insert(it, sh[s].end());
          sh[s].erase(it, sh[s].end());
        }
      });
    });
    live();
  }
  void prefix(int d, int s, int cnt) {
    with(s, [&](auto& x) {
      with(d, [&](auto& y) {
        if (static_cast<void*>(&x) == static_cast<void*>(&y)) return;
        int out = 0;
        try {
          y.transfer_prefix_from(x, static_cast<std::size_t>(cnt));
        } catch (const std::exception&) {
          out = 2;
        }
        LOG.ev("pre", d, s, cnt, out, size(y), size(x));
        if (out == 0) {
          auto it = sh[s].begin();
          std::advance(it, std::min<int>(cnt, static_cast<int>(sh[s].size())));
          sh[d].insert(sh[s].begin(), it);
          sh[s].erase(sh[s].begin(), it);
        }
      });
    });
    live();
  }
  void suffix(int d, int s, int cnt) {
    with(s, [&](auto& x) {
      with(d, [&](auto& y) {
        if (static_cast<void*>(&x) == static_cast<void*>(&y)) return;
        int out = 0;
        try {
          y.transfer_suffix_from(x, static_cast<std::size_t>(cnt));
        } catch (const std::exception&) {
          out = 2;
        }
        LOG.ev("suf", d, s, cnt, out, size(y), size(x));
        if (out == 0) {
          int keep = static_cast<int>(sh[s].size()) - cnt;
          auto it = sh[s].begin();
          std::advance(it, std::max(0, keep));
          sh[d].insert(it, sh[s].end());
          sh[s].erase(it, sh[s].end());
        }
      });
    });
    live();
  }
  // a transfer between two objects that respects the ordering precondition
  void transfer(int o, int p) {
    if (o == p || !exists(o) || !exists(p)) return;
    int n = static_cast<int>(sh[p].size());
    switch (rng.below(3)) {
      case 0:
        if (rng.chance(3, 4)) clear(p);
        n = static_cast<int>(sh[o].size());
        split(o, p, rng.in(0, n));
        break;
      case 1: {
        // order: all of o before all of p
        if (!sh[o].empty() && !sh[p].empty() && *sh[o].rbegin() >= *sh[p].begin()) {
          if (rng.chance(1, 2)) clear(o);
          else while (!sh[o].empty() && *sh[o].rbegin() >= *sh[p].begin()) erase_key(o, *sh[o].rbegin());
        }
        prefix(o, p, rng.chance(1, 12) ? n + 1 : rng.in(0, n));
        break;
      }
      default:
        if (!sh[o].empty() && !sh[p].empty() && *sh[o].begin() <= *sh[p].rbegin()) {
          if (rng.chance(1, 2)) clear(o);
          else while (!sh[o].empty() && *sh[o].begin() <= *sh[p].rbegin()) erase_key(o, *sh[o].begin());
        }
        suffix(o, p, rng.chance(1, 12) ? n + 1 : rng.in(0, n));
    }
    scan_fwd(o);
    scan_fwd(p);
    sz(o);
    sz(p);
  }
  void copy_move(int o, int p) {  // same capacity
    if (o % 2 != p % 2) return;
    auto go = [&](auto& x, auto& y, bool sameobj) {  // x = slot of o, y = slot of p
      using M = typename std::remove_reference_t<decltype(x)>::element_type;
      if (!y) return;
      if (!x) {
        if (rng.chance(1, 2)) {
          x = make_map<M>(std::as_const(*y));
          LOG.ev("cpy", o, p);
          sh[o] = sh[p];
        } else {
          x = make_map<M>(std::move(*y));
          LOG.ev("mov", o, p);
          sh[o] = sh[p];
          sh[p].clear();
        }
      } else if (rng.chance(1, 2)) {
        *x = std::as_const(*y);
        LOG.ev("asg", o, p);
        sh[o] = sh[p];
      } else {
        M* src = y.get();
        *x = std::move(*src);
        LOG.ev("masg", o, p);
        if (!sameobj) {
          sh[o] = sh[p];
          sh[p].clear();
        }
      }
      scan(o);
      scan(p);
      sz(o);
      sz(p);
    };
    if (o % 2 == 1) go(a[o / 2], a[p / 2], o == p); else go(b[o / 2 - 1], b[p / 2 - 1], o == p);
    live();
  }

  // ---------------------------------------------------------------- programs
  void op(int o) {
    bool full = static_cast<int>(sh[o].size()) >= cap(o);
    int k = rng.in(1, U);
    int c = rng.below(24);
    if (c < 9) {
      if (full && rng.chance(1, 2)) k = present(o);
      if (rng.chance(alias, 1000)) put_alias(o, k); else put(o, k, rng.below(5));
    } else if (c < 13) {
      if (rng.chance(alias, 1000)) del_alias(o);
      else {
        int p = rng.chance(4, 5) ? present(o) : k;
        if (p == 0) p = k;
        if (sh[o].contains(p) && rng.chance(1, 2)) erase_pos(o, p); else erase_key(o, p);
      }
    } else if (c < 17) find(o, k, rng.below(3));
    else if (c < 18) update_some(o);
    else if (c < 20) ra(o);
    else if (c < 21) scan(o);
    else if (c < 22) { if (rng.chance(1, 3)) table(o); }
    else if (c < 23) sz(o);
    else if (rng.chance(1, 25)) clear(o);
  }
  void fill(int o, int target, int order) {
    target = std::min({target, cap(o), U});
    int lo = 1, hi = U, guard = 0;
    while (static_cast<int>(sh[o].size()) < target && ++guard < 4 * U) {
      int k;
      if (order == 0) { while (sh[o].contains(lo)) ++lo; k = lo; }
      else if (order == 1) { while (sh[o].contains(hi)) --hi; k = hi; }
      else k = absent(o);
      if (rng.chance(alias, 1000)) put_alias(o, k); else put(o, k, rng.below(5));
    }
  }
  void drain(int o, int target, int order) {
    int guard = 0;
    while (static_cast<int>(sh[o].size()) > target && ++guard < 4 * U) {
      int k = order == 0 ? *sh[o].begin() : order == 1 ? *sh[o].rbegin() : present(o);
      if (rng.chance(1, 2)) erase_pos(o, k); else erase_key(o, k);
    }
  }
  void life(int steps) {
    for (int o = 1; o <= 2; ++o) {
      make(o);
      sz(o);
      fill(o, cap(o), rng.below(3));
      scan(o);
      put(o, absent(o), rng.below(5));  // refused
      sz(o);
      for (int i = 0; i < steps; ++i) {
        op(o);
        if (rng.chance(1, 60)) fill(o, cap(o), rng.below(3));
        if (rng.chance(1, 60)) drain(o, rng.below(3), rng.below(3));
      }
      scan(o);
      destroy(o);
    }
  }
  void objects(int steps) {
    for (int i = 0; i < steps; ++i) {
      int o = rng.in(1, NO), p = rng.in(1, NO);
      if (!exists(o)) {
        if (rng.chance(1, 2) && p != o) copy_move(o, p);
        if (!exists(o)) make(o);
        continue;
      }
      switch (rng.below(12)) {
        case 0: if (rng.chance(1, 3)) destroy(o); break;
        case 1: case 2: copy_move(o, p); break;
        case 3: case 4: case 5: case 6: transfer(o, p); break;
        case 7: fill(o, rng.in(1, cap(o)), rng.below(3)); break;
        default: for (int j = rng.in(1, 8); j > 0; --j) op(o);
      }
    }
    for (int o = 1; o <= NO; ++o)
      if (exists(o)) {
        scan(o);
        destroy(o);
      }
  }
  // --------------------------------------------------------- readers (C22)
  void read_all(int steps) {
    for (int i = 0; i < steps; ++i) {
      int o = rng.in(1, NO);
      if (!exists(o)) continue;
      switch (rng.below(10)) {
        case 0: scan(o); break;
        case 1: sz(o); break;
        case 2: ra(o); break;
        case 3: if (rng.chance(1, 4)) table(o); break;
        default: find(o, rng.in(1, U), rng.below(3));
      }
    }
  }
  void read_phase(int threads, int steps, bool protect) {
    std::vector<std::thread> th;
    std::vector<Log> logs(static_cast<std::size_t>(threads));
    std::atomic<int> ready = 0;
    if (protect) Guard::protect(true);
    Guard::writes = 0;
    Guard::races = 0;
    for (int i = 0; i < threads; ++i)
      th.emplace_back([&, i, seed = rng.next()] {
        DenseDriver r(seed, U);
        for (int j = 0; j < 2; ++j) {
          r.a[j].reset(a[j].get());
          r.b[j].reset(b[j].get());
        }
        for (int o = 1; o <= NO; ++o) r.sh[o] = sh[o];
        LOG.buffer(std::size_t(64) << 20);
        ++ready;
        while (ready < threads) std::this_thread::yield();
        r.read_all(steps);
        for (int j = 0; j < 2; ++j) {
          static_cast<void>(r.a[j].release());
          static_cast<void>(r.b[j].release());
        }
        logs[static_cast<std::size_t>(i)] = LOG;
      });
    for (auto& x : th) x.join();
    if (protect) Guard::protect(false);
    for (auto& l : logs) LOG.append(l);
    LOG.ev("stores", 0, static_cast<int>(Guard::writes), static_cast<int>(Guard::races));
  }
  void readers(int rounds, int threads, int steps, bool protect) {
    Guard::install();
    for (int o = 1; o <= NO; ++o) make(o);
    read_phase(threads, steps, protect);
    for (int r = 0; r < rounds; ++r) {
      int o = rng.in(1, NO);
      switch (rng.below(3)) {
        case 0: fill(o, rng.in(1, cap(o)), rng.below(3)); break;
        case 1: drain(o, rng.below(cap(o)), rng.below(3)); break;
        default: for (int j = rng.in(1, 30); j > 0; --j) op(o);
      }
      read_phase(threads, steps, protect);
    }
    for (int o = 1; o <= NO; ++o) destroy(o);
  }
  // --------------------------------------------------- injected failures (C15)
  template <class F, class G>
  void faulty(F call, G after) {
    for (long i = 0;; ++i) {
      Fault::arm(i);
      bool failed = false;
      try {
        call();
      } catch (const Fault::Injected&) {
        failed = true;
      }
      Fault::off();
      if (failed != Fault::fired) LOG.ev("ok", 0, 0);  // the error was swallowed
      if (!failed) return;
      after();
    }
  }
  void left(int o) {
    LOG.ev("fail", o);
    live();
    if (rng.chance(1, 2)) scan_fwd(o); else scan(o);
    sz(o);
  }
  void put_faulty(int o, int k) {
    if (k <= 0) return;
    K key = KM::key(k, rrep());
    int v = fresh(), p = KM::rep(key) * REP + v;
    V val = VM::make(v);
    mine = {&val};
    with(o, [&](auto& x) {
      if (x.full() && !sh[o].contains(k)) return;
      auto it = x.end();
      bool b = false;
      auto res = [&](auto r) { it = r.first; b = r.second; };
      auto again = [&] { left(o); };
      const char* op = "ins";
      int c = x.full() ? 3 + rng.below(2) : rng.below(8);
      switch (c) {
        case 0: faulty([&] { res(x.insert(key, val)); }, again); break;
        case 1: {
          op = "inh";
          auto h = x.lower_bound(key);
          faulty([&] { res(x.insert_hint(h, key, val)); }, again);
          break;
        }
        case 2: faulty([&] { res(x.try_emplace(key, std::as_const(val))); }, again); break;
        case 3: {
          op = "ioa";
          faulty([&] { res(x.insert_or_assign(key, val)); }, again);
          break;
        }
        case 4: {
          op = "ioa";
          faulty([&] { res(x.insert_or_assign(key, std::move(val))); }, [&] { left(o); val = VM::make(v); });
          break;
        }
        case 5: {
          int raw = VM::tokens ? v : v - 1;
          faulty([&] { res(x.try_emplace(key, raw)); }, again);
          break;
        }
        case 6: {
          V* ref = nullptr;
          faulty([&] { ref = &x[key]; }, again);
          LOG.ev("sub", o, k, KM::rep(key) * REP + 1, VM::get(*ref), size(x));
          sh[o].insert(k);
          faulty([&] { *ref = val; }, [&] { LOG.ev("fail", o); });
          LOG.ev("wr", o, k, v);
          return;
        }
        default: {
          auto w = x.find(key);
          if (w == x.end()) return;
          faulty([&] { w->second = val; }, again);
          LOG.ev("wr", o, k, v);
          return;
        }
      }
      LOG.ev(op, o, k, p, b ? 1 : 0, rank(x, it), payz(x, it), static_cast<int>(it - x.begin()), size(x));
      if (b) sh[o].insert(k);
    });
    mine.clear();
    val = VM::make(1);
    live();
  }
  void copy_faulty(int o, int p) {
    if (o % 2 != p % 2 || o == p || !exists(p)) return;
    auto go = [&](auto& x, auto& y) {
      using M = typename std::remove_reference_t<decltype(x)>::element_type;
      if (!x) {
        faulty([&] { x = make_map<M>(std::as_const(*y)); }, [&] { left(p); });
        LOG.ev("cpy", o, p);
        sh[o] = sh[p];
      } else {
        // no promise about what is left, but that it is a valid map
        Fault::arm(rng.in(0, size(*y)));
        try {
          *x = std::as_const(*y);
          Fault::off();
          LOG.ev("asg", o, p);
          sh[o] = sh[p];
        } catch (const Fault::Injected&) {
          Fault::off();
          std::vector<int> v;
          int lim = cap(o) + 3;
          sh[o].clear();
          for (auto i = x->begin(); i != x->end() && --lim > 0; ++i) {
            v.push_back(KM::rank(i->first));
            v.push_back(KM::rep(i->first) * REP + VM::get(i->second));
            sh[o].insert(v[v.size() - 2]);
          }
          LOG.ev("failasg", o, v);
          sz(o);
          clear(o);
        }
      }
      scan(o);
      scan(p);
      live();
    };
    if (o % 2 == 1) go(a[o / 2], a[p / 2]); else go(b[o / 2 - 1], b[p / 2 - 1]);
  }
  void faults(int steps) {
    for (int i = 0; i < steps; ++i) {
      int o = rng.in(1, NO), p = rng.in(1, NO);
      if (!exists(o)) {
        if (rng.chance(1, 2)) copy_faulty(o, p);
        if (!exists(o)) make(o);
        continue;
      }
      switch (rng.below(14)) {
        case 0: if (rng.chance(1, 4)) destroy(o); break;
        case 1: case 2: copy_faulty(o, p); break;
        case 3: transfer(o, p); break;
        case 4: if (rng.chance(1, 2)) drain(o, rng.below(cap(o)), rng.below(3)); break;
        case 5: for (int j = rng.in(1, 4); j > 0; --j) op(o); break;
        default:
          for (int j = rng.in(1, 6); j > 0; --j)
            put_faulty(o, sh[o].empty() || rng.chance(2, 3) ? absent(o) : present(o));
      }
    }
    for (int o = 1; o <= NO; ++o)
      if (exists(o)) {
        scan(o);
        destroy(o);
      }
  }
  // every size with many contents, all probes (C10)
  void sizes(int variants) {
    make(1);
    int c = std::min(cap(1), U);
    for (int s = 0; s <= c; ++s)
      for (int v = 0; v < variants; ++v) {
        clear(1);
        // contents: random, or all small, or all large, or dense in the middle
        int kind = v % 4, guard = 0;
        std::set<int> ks;
        int base = rng.in(1, U - s + 1);
        for (int k = 0; kind == 3 && k < s; ++k) ks.insert(base + k);
        while (static_cast<int>(ks.size()) < s && ++guard < 100000) {
          int w = std::max(s + 2, U / 3);
          int k = kind == 0 ? rng.in(1, U) : kind == 1 ? rng.in(1, std::min(U, w)) : rng.in(std::max(1, U - w), U);
          ks.insert(k);
        }
        std::vector<int> order(ks.begin(), ks.end());
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[static_cast<std::size_t>(rng.below(static_cast<int>(i)))]);
        for (int k : order) {
          K key = KM::key(k, rrep());
          with(1, [&](auto& x) { put_ref(x, 1, k, 0, key, VM::make(2), 2); });
        }
        table(1);
        if (rng.chance(1, 3)) scan(1);
      }
    destroy(1);
  }
  // all splits and transfers between maps of the given fill (C12)
  void moves(int rounds) {
    for (int r = 0; r < rounds; ++r) {
      int o = rng.in(1, 2), p = rng.in(1, NO);
      if (o == p) p = 3;
      for (int x : {o, p}) if (!exists(x)) make(x);
      clear(o);
      clear(p);
      int n = rng.chance(1, 3) ? cap(o) : rng.in(0, cap(o));
      fill(o, n, rng.below(3));
      for (int d = 0; d < 3; ++d) {
        transfer(p, o);
        transfer(o, p);
      }
      if (rng.chance(1, 4)) { table(o); table(p); }
    }
    for (int o = 1; o <= NO; ++o)
      if (exists(o)) destroy(o);
  }

  // a program generated by TLC from the specification: contents and one action
  void replay(const char* path) {
    std::ifstream f(path);
    if (!f) Log::fatal("cannot open program");
    std::string ln;
    while (std::getline(f, ln)) {
      std::istringstream is(ln);
      int no = 0;
      is >> no;
      LOG.ev("cfg", 0);
      for (int o = 1; o <= no; ++o) {
        make(o);
        int cnt = 0;
        is >> cnt;
        std::vector<int> ks(static_cast<std::size_t>(cnt));
        for (int& k : ks) is >> k;
        // earlier occupants leave stale slots behind
        if (rng.chance(1, 2)) {
          fill(o, rng.in(0, cap(o)), rng.below(3));
          if (rng.chance(1, 2)) drain(o, 0, rng.below(3)); else clear(o);
        }
        for (std::size_t i = ks.size(); i > 1; --i)
          std::swap(ks[i - 1], ks[static_cast<std::size_t>(rng.below(static_cast<int>(i)))]);
        for (int k : ks) put(o, k, rng.below(4));
      }
      std::string op;
      int o = 0, x = 0, y = 0;
      is >> op >> o >> x >> y;
      walks = false;
      if (op == "ins") put(o, x, 0);
      else if (op == "inh") put(o, x, 1);
      else if (op == "te") put(o, x, 2);
      else if (op == "ioa") put(o, x, 3);
      else if (op == "sub") put(o, x, 4);
      else if (op == "fnd") find(o, x, 0);
      else if (op == "lb") find(o, x, 1);
      else if (op == "ub") find(o, x, 2);
      else if (op == "ek") erase_key(o, x);
      else if (op == "ep") erase_pos(o, x);
      else if (op == "upk") update_key(o, x, y);
      else if (op == "clr") clear(o);
      else if (op == "spl") split(o, x, y);
      else if (op == "pre") prefix(o, x, y);
      else if (op == "suf") suffix(o, x, y);
      else Log::fatal("unknown action in program");
      walks = true;
      for (int i = 1; i <= no; ++i) {
        scan_fwd(i);
        if (rng.chance(1, 3)) { scan(i); sz(i); }
        if (rng.chance(1, 4)) ra(i);
      }
      for (int i = 1; i <= no; ++i) destroy(i);
    }
  }
};

template <class Cfg>
void dense_run(int argc, char** argv, std::uint64_t salt = 0) {
  std::uint64_t seed = static_cast<std::uint64_t>(arg(argc, argv, "-seed", 1)) + salt * 7919;
  int U = static_cast<int>(arg(argc, argv, "-U", 40));
  int n = static_cast<int>(arg(argc, argv, "-n", 100));
  std::string prog = sarg(argc, argv, "-prog", "life");
  if (sizeof(typename Cfg::KM::K) == 1) U = std::min(U, 256);
  Cfg::KM::init(U);
  DenseDriver<Cfg> d(seed, U);
  d.alias = static_cast<int>(arg(argc, argv, "-alias", 0));
  LOG.ev("cfg", 0);
  if (prog == "life") d.life(n);
  else if (prog == "objects") d.objects(n);
  else if (prog == "sizes") d.sizes(n);
  else if (prog == "moves") d.moves(n);
  else if (prog == "readers")
    d.readers(n, static_cast<int>(arg(argc, argv, "-threads", 4)), static_cast<int>(arg(argc, argv, "-steps", 60)),
              arg(argc, argv, "-guard", 1) != 0);
  else if (prog == "faults") {
    if constexpr (std::is_constructible_v<typename Cfg::V, int>) d.faults(n);
    else Log::fatal("values cannot fail");
    std::fprintf(stderr, "FAULTS %ld\n", Fault::total);
  }
  else if (prog == "replay") d.replay(sarg(argc, argv, "-file", ""));
  else Log::fatal("unknown program");
}
template <class... Cfgs>
int dense_main(int argc, char** argv) {
  LOG.open(sarg(argc, argv, "-o", "trace.ndjson"));
  std::uint64_t i = 0;
  (dense_run<Cfgs>(argc, argv, i++), ...);
  LOG.close();
  return 0;
}

}  // namespace vh
