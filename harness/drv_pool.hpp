// Driver of the memory pools and allocator handles. Every mapping request the
// pools make is intercepted (link with WRAP flags): granted, placed or refused
// here, and recorded with the call that made it.
#pragma once
#include "common.hpp"

#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/hugepage_pool.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <bit>
#include <cerrno>
#include <deque>
#include <fstream>
#include <list>
#include <map>
#include <new>
#include <unordered_map>

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_madvise(void*, size_t, int);
}

namespace vh {
namespace fc = kressler::fast_containers;

constexpr std::size_t LIMIT = std::size_t(1) << 30;
constexpr std::size_t HUGE = std::size_t(2) << 20;
// sizes as recorded: the large ones only by the power of two not below them
inline long enc(std::size_t x) {
  return x < LIMIT ? static_cast<long>(x) : static_cast<long>(LIMIT) + (x > (std::size_t(1) << 63) ? 64 : std::bit_width(x - 1));
}
inline long cap(std::size_t x) { return static_cast<long>(std::min(x, LIMIT)); }
// Bytes are recorded in this unit: 1, or 64 KB where everything asked for is a
// multiple of that (a number of bytes that is not can only be wrong: -7).
inline std::size_t unit = 1;
inline long bcap(std::size_t x) { return x % unit != 0 ? -7 : cap(x / unit); }
// whole units: a region may exceed a number of them by a little
inline long fcap(std::size_t x) { return cap(x / unit); }
inline long benc(std::size_t x) { return unit == 1 ? enc(x) : bcap(x); }
inline long acap(std::size_t x) { return unit == 1 ? cap(x) : std::max(1L, bcap(x)); }

// ------------------------------------------------------------------- system
struct Sys {
  struct Region {
    char* base;
    std::size_t size, len;  // as asked for, and in whole pages
    bool mapped;
    int rid;
  };
  static inline bool on = false, busy = false;
  struct Busy {
    Busy() { busy = true; }
    ~Busy() { busy = false; }
  };
  static inline std::vector<Region> regions;
  static inline std::vector<std::vector<long>> maps, unmaps;  // of this call
  static inline Rng rng{1};
  static inline int huge_pct = 0, plain_pct = 100;
  static inline std::vector<int> script;  // grants to give out first
  static inline std::vector<int> places;  // and where to put them, in pages
  static inline std::size_t quota = std::size_t(48) << 20;
  static inline long new_fail = 0;  // n-th operator new from now fails
  static inline int new_failed = 0;
  static inline std::size_t page() { return 4096; }

  static void reset() {
    for (Region& r : regions)
      if (r.mapped) ::__real_munmap(r.base, r.len);
    regions.clear();
  }
  static bool grant(bool huge) {
    if (!script.empty()) {
      bool g = script.front() != 0;
      script.erase(script.begin());
      return g;
    }
    return rng.chance(huge ? huge_pct : plain_pct, 100);
  }
  static void* map(std::size_t size, bool huge) {
    Busy b0;
    bool ok = size != 0 && size <= quota && (!huge || size % HUGE == 0) && grant(huge);
    if (!ok) {
      maps.push_back({huge, fcap(size), 0, 0, 0});
      errno = size == 0 ? EINVAL : ENOMEM;
      return MAP_FAILED;
    }
    // inaccessible pages on both sides; the address is as aligned as the
    // system promises and no more
    std::size_t len = (size + page() - 1) / page() * page();
    std::size_t all = len + 3 * HUGE;
    char* p = static_cast<char*>(::__real_mmap(nullptr, all, PROT_NONE,
                                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) Log::fatal("no address space");
    char* b = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(p) + HUGE) / HUGE * HUGE);
    std::size_t place = static_cast<std::size_t>(rng.below(512));
    if (!places.empty()) {
      place = static_cast<std::size_t>(places.front());
      places.erase(places.begin());
    }
    if (unit > page()) place = place * page() / unit * (unit / page());
    if (!huge) b += place * page();
    if (size > (std::size_t(64) << 20)) ::__real_madvise(b, len, MADV_NOHUGEPAGE);
    if (::mprotect(b, len, PROT_READ | PROT_WRITE) != 0) Log::fatal("mprotect");
    int rid = static_cast<int>(regions.size()) + 1;
    regions.push_back({b, size, len, true, rid});
    maps.push_back({huge, fcap(size), 1, rid, bcap(reinterpret_cast<std::uintptr_t>(b) % HUGE)});
    return b;
  }
  static int unmap(void* p, std::size_t size) {
    Busy b0;
    for (Region& r : regions)
      if (r.base == p && r.mapped) {
        unmaps.push_back({r.rid, size == r.size ? fcap(size) : size / unit == r.size / unit ? -7 : fcap(size)});
        if (size == r.size) {
          ::__real_munmap(r.base, r.len);
          ::__real_mmap(r.base, r.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
          r.mapped = false;
        }
        return 0;
      }
    unmaps.push_back({0, bcap(size)});
    errno = EINVAL;
    return -1;
  }
  static void where(const void* p, long& rid, long& off) {
    rid = off = 0;
    for (const Region& r : regions)
      if (r.mapped && p >= r.base && p < r.base + r.len) {
        rid = r.rid;
        off = bcap(static_cast<std::size_t>(static_cast<const char*>(p) - r.base));
        return;
      }
  }
  static int mapped() {
    int n = 0;
    for (const Region& r : regions) n += r.mapped;
    return n;
  }
};
}  // namespace vh

extern "C" {
inline void* vh_map(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  if (!vh::Sys::on) return __real_mmap(a, n, pr, fl, fd, o);
  return vh::Sys::map(n, (fl & MAP_HUGETLB) != 0);
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { return vh_map(a, n, pr, fl, fd, o); }
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) { return vh_map(a, n, pr, fl, fd, o); }
int __wrap_munmap(void* p, size_t n) { return vh::Sys::on ? vh::Sys::unmap(p, n) : __real_munmap(p, n); }
int __wrap_madvise(void* p, size_t n, int a) {
  if (!vh::Sys::on) return __real_madvise(p, n, a);
  if (vh::Sys::rng.chance(1, 3)) {  // advice may be refused
    errno = EINVAL;
    return -1;
  }
  return 0;
}
}

void* operator new(std::size_t n) {
  using vh::Sys;
  if (Sys::on && !Sys::busy && Sys::new_fail > 0 && --Sys::new_fail == 0) {
    Sys::new_failed = 1;
    throw std::bad_alloc();
  }
  void* p = std::malloc(n != 0 ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

namespace vh {

// -------------------------------------------------------------------- types
struct T1 { std::uint64_t a; };
struct T2 { std::uint32_t a[6]; };
struct alignas(128) T3 { char a[128]; };
struct T4 { T4* next_leaf; char a[88]; };
struct T5 { bool children_are_leaves; void* a; char b[184]; };
struct T6 { char a[40]; int next_leaf; char b[52]; };
struct alignas(8192) T7 { char a[16384]; };
struct T8 { void* children_are_leaves[12]; };
struct T9 { char c; };      // only where any size is allowed
struct T10 { short s[3]; };  // the same
struct T11 { char a[std::size_t(6) << 30]; };  // larger than 32 bits can say
struct T12 { T12* next_leaf; char a[(std::size_t(5) << 30) - sizeof(void*)]; };
struct T13 { bool children_are_leaves; char a[(1 << 16) - 1]; };
template <class T>
struct Tag { using type = T; };
constexpr int NT = 13, NTANY = 10, NTSINGLE = 8;
template <class F>
decltype(auto) with_type(int t, F&& f) {
  switch (t) {
    case 1: return f(Tag<T1>());
    case 2: return f(Tag<T2>());
    case 3: return f(Tag<T3>());
    case 4: return f(Tag<T4>());
    case 5: return f(Tag<T5>());
    case 6: return f(Tag<T6>());
    case 7: return f(Tag<T7>());
    case 8: return f(Tag<T8>());
    case 9: return f(Tag<T9>());
    case 10: return f(Tag<T10>());
    case 11: return f(Tag<T11>());
    case 12: return f(Tag<T12>());
    default: return f(Tag<T13>());
  }
}
struct TypeRow { long size, align, kind; };
template <class T>
std::vector<long> type_row() {
  return {std::is_same_v<T, T1> && unit > 1 ? 1 : benc(sizeof(T)), acap(alignof(T)),
          std::is_same_v<T, T4> || std::is_same_v<T, T6> || std::is_same_v<T, T12> ? 1
          : std::is_same_v<T, T5> || std::is_same_v<T, T8> || std::is_same_v<T, T13> ? 2 : 0,
          fc::allocator_stats_enabled};
}

// ------------------------------------------------------------------ handles
using PoolP = std::shared_ptr<fc::HugePagePool>;
using MultiP = std::shared_ptr<fc::MultiSizeHugePagePool>;
template <class T> using HA = fc::HugePageAllocator<T>;
template <class T> using SA = fc::MultiSizeHugePageAllocator<T>;
template <class T> using TA = fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>;

struct Block {
  void* p;
  std::size_t bytes;   // really available to the user
  std::size_t n, req;  // as given to allocate
  int tag;
  int h;               // some handle that can release it (its identity)
  long rid, off;
};

struct PoolDriver {
  struct Slot {
    char k = 0;  // 0 = empty
    int t = 0;
    void* obj = nullptr;
    int a = 0, b = 0;  // identities of the pools behind it (driver's own)
  };
  std::vector<Slot> hs;
  std::vector<Block> blocks;
  Rng rng{1};
  int tags = 0, ids = 0;
  bool multi_ok = true;

  // f(reference to the allocator or shared pointer)
  template <class F>
  void on(Slot& s, F&& f) {
    switch (s.k) {
      case 'P': f(*static_cast<PoolP*>(s.obj)); break;
      case 'M': f(*static_cast<MultiP*>(s.obj)); break;
      case 'H': with_type(s.t, [&]<class T>(Tag<T>) { if constexpr (sizeof(T) >= 8) f(*static_cast<HA<T>*>(s.obj)); }); break;
      case 'T': with_type(s.t, [&]<class T>(Tag<T>) { if constexpr (sizeof(T) >= 8) f(*static_cast<TA<T>*>(s.obj)); }); break;
      case 'S': with_type(s.t, [&]<class T>(Tag<T>) { f(*static_cast<SA<T>*>(s.obj)); }); break;
    }
  }
  static std::string kind(char k) { return std::string(1, k); }

  struct Call {  // one call into the library
    Call() {
      Sys::maps.clear();
      Sys::unmaps.clear();
      Sys::new_failed = 0;
      Sys::on = true;
    }
    ~Call() { stop(); }
    void stop() { Sys::on = false; }
  };
  template <class F>
  std::string guarded(F&& f, bool may_fail = false) {
    std::string r = "ok";
    if (!may_fail) Sys::new_fail = 0;
    Call c;
    try {
      f();
    } catch (const std::bad_alloc&) {
      Sys::on = false;
      r = "oom";
    } catch (const std::invalid_argument&) {
      Sys::on = false;
      r = "inv";
    } catch (...) {
      Sys::on = false;
      r = "exception";
    }
    c.stop();
    Sys::new_fail = 0;
    Sys::script.clear();
    Sys::places.clear();
    return r;
  }

  std::vector<int> live(const char* kinds) {
    std::vector<int> v;
    for (int i = 0; i < static_cast<int>(hs.size()); ++i)
      if (hs[i].k != 0 && std::strchr(kinds, hs[i].k)) v.push_back(i);
    return v;
  }
  int fresh() {
    for (int i = 0; i < static_cast<int>(hs.size()); ++i)
      if (hs[i].k == 0) return i;
    hs.emplace_back();
    return static_cast<int>(hs.size()) - 1;
  }
  int pick(const char* kinds) {
    auto v = live(kinds);
    return v.empty() ? -1 : v[rng.below(static_cast<int>(v.size()))];
  }

  // ---------------------------------------------------------------- creation
  // Arguments not given are the documented ones: huge pages wanted; 256 MB at
  // first (64 MB for each size class) and 64 MB at a time.
  int given = 9;
  void defaults(std::size_t& init, bool& want, std::size_t& grow, std::size_t first) const {
    if (given < 1) init = first << 20;
    if (given < 2) want = true;
    if (given < 3) grow = std::size_t(64) << 20;
  }
  void new_pool(std::size_t init, bool want, std::size_t grow) {
    int h = fresh();
    PoolP* p = nullptr;
    defaults(init, want, grow, 256);
    std::string r = guarded([&] {
      p = new PoolP(given == 0   ? std::make_shared<fc::HugePagePool>()
                    : given == 1 ? std::make_shared<fc::HugePagePool>(init)
                    : given == 2 ? std::make_shared<fc::HugePagePool>(init, want)
                                 : std::make_shared<fc::HugePagePool>(init, want, grow));
    }, true);
    LOG.ev("np", h, bcap(init), want, bcap(grow), r, Sys::maps, Sys::unmaps, Sys::new_failed);
    if (r == "ok") ++ids, hs[h] = {'P', 0, p, ids, ids};
  }
  void new_huge(int t, std::size_t init, bool want, std::size_t grow) {
    int h = fresh();
    void* p = nullptr;
    defaults(init, want, grow, 256);
    std::string r = guarded([&] {
      with_type(t, [&]<class T>(Tag<T>) {
        if constexpr (sizeof(T) >= 8)
          p = given == 0   ? new HA<T>()
              : given == 1 ? new HA<T>(init)
              : given == 2 ? new HA<T>(init, want)
                           : new HA<T>(init, want, grow);
      });
    }, true);
    LOG.ev("nh", h, t, bcap(init), want, bcap(grow), r, Sys::maps, Sys::unmaps, Sys::new_failed);
    if (r == "ok") ++ids, hs[h] = {'H', t, p, ids, ids};
  }
  // make_two_pool_allocator<Key, Value> for a pair of 8 and 16 bytes: its type
  // is rebound to t at once
  void new_two(int t, std::size_t li, std::size_t ii, bool want, std::size_t lg, std::size_t ig) {
    int h = fresh();
    void* p = nullptr;
    if (given < 3) want = true;
    if (given < 4) lg = std::size_t(64) << 20;
    if (given < 5) ig = std::size_t(64) << 20;
    std::string r = guarded([&] {
      auto a = given < 3    ? fc::make_two_pool_allocator<std::int64_t, double>(li, ii)
               : given == 3 ? fc::make_two_pool_allocator<std::int64_t, double>(li, ii, want)
               : given == 4 ? fc::make_two_pool_allocator<std::int64_t, double>(li, ii, want, lg)
                            : fc::make_two_pool_allocator<std::int64_t, double>(li, ii, want, lg, ig);
      with_type(t, [&]<class T>(Tag<T>) { if constexpr (sizeof(T) >= 8) p = new TA<T>(a); });
    }, true);
    LOG.ev("nt", h, t, bcap(li), bcap(ii), want, bcap(lg), bcap(ig), r, Sys::maps, Sys::unmaps, Sys::new_failed);
    if (r == "ok") ids += 2, hs[h] = {'T', t, p, ids - 1, ids};
  }
  void new_multi(std::size_t init, bool want, std::size_t grow) {
    int h = fresh();
    MultiP* p = nullptr;
    defaults(init, want, grow, 64);
    auto make = [&](auto&&... a) {
      if (rng.chance(1, 2)) p = new MultiP(std::make_shared<fc::MultiSizeHugePagePool>(a...));
      else p = new MultiP(fc::make_multi_size_hugepage_allocator<std::int64_t>(a...).get_pool());
    };
    guarded([&] { given == 0 ? make() : given == 1 ? make(init) : given == 2 ? make(init, want) : make(init, want, grow); });
    LOG.ev("nm", h, bcap(init), want, bcap(grow), Sys::unmaps);
    ++ids;
    hs[h] = {'M', 0, p, ids, 0};
  }
  void put(int h, Slot s) { hs[h] = s; }
  void new_multi_alloc(int t, int m) {
    int h = fresh();
    void* p = nullptr;
    guarded([&] { with_type(t, [&]<class T>(Tag<T>) { p = new SA<T>(*static_cast<MultiP*>(hs[m].obj)); }); });
    LOG.ev("ns", h, t, m, Sys::unmaps);
    put(h, {'S', t, p, hs[m].a, 0});
  }
  void new_two_of(int t, int a, int b) {
    int h = fresh();
    void* p = nullptr;
    guarded([&] {
      fc::TwoPoolPolicy pol(*static_cast<PoolP*>(hs[a].obj), *static_cast<PoolP*>(hs[b].obj));
      with_type(t, [&]<class T>(Tag<T>) { if constexpr (sizeof(T) >= 8) p = new TA<T>(pol); });
    });
    LOG.ev("nq", h, t, a, b, Sys::unmaps);
    put(h, {'T', t, p, hs[a].a, hs[b].a});
  }
  void extract(int g, int what) {  // the pools behind an allocator
    int h = fresh();
    void* p = nullptr;
    guarded([&] {
      on(hs[g], [&](auto& x) {
        if constexpr (requires { x.get_policy(); })
          p = new PoolP(what == 0 ? x.get_policy().leaf_pool_ : x.get_policy().internal_pool_);
        else if constexpr (requires { x.get_pool(); })
          p = new MultiP(x.get_pool());
      });
    });
    LOG.ev(hs[g].k == 'S' ? "gm" : what == 0 ? "gl" : "gi", h, g, Sys::unmaps);
    if (hs[g].k == 'S') put(h, {'M', 0, p, hs[g].a, 0});
    else put(h, {'P', 0, p, what == 0 ? hs[g].a : hs[g].b, what == 0 ? hs[g].a : hs[g].b});
  }
  void copy(int g, bool move) {
    int h = fresh();
    void* p = nullptr;
    guarded([&] {
      on(hs[g], [&]<class A>(A& x) {
        if constexpr (requires { x.use_count(); }) p = new A(x);
        else if (move) p = new A(std::move(x));
        else p = new A(x);
      });
    });
    LOG.ev("cp", h, g, Sys::unmaps);
    Slot s = hs[g];
    s.obj = p;
    put(h, s);
  }
  void assign(int h, int g, bool move) {
    guarded([&] {
      on(hs[h], [&]<class A>(A& x) {
        A& y = *static_cast<A*>(hs[g].obj);
        if constexpr (requires { x.use_count(); }) x = y;
        else if (move) x = std::move(y);
        else x = y;
      });
    });
    LOG.ev("as", h, g, Sys::unmaps);
    hs[h].a = hs[g].a;
    hs[h].b = hs[g].b;
    orphans();
  }
  void swap(int h, int g) {
    guarded([&] {
      on(hs[h], [&]<class A>(A& x) {
        using std::swap;
        swap(x, *static_cast<A*>(hs[g].obj));
      });
    });
    LOG.ev("sw", h, g, Sys::unmaps);
    std::swap(hs[h].a, hs[g].a);
    std::swap(hs[h].b, hs[g].b);
  }
  void rebind(int g, int t) {
    int h = fresh();
    void* p = nullptr;
    if (hs[g].k != 'H' || hs[g].t == t) Sys::new_fail = 0;
    std::string r = guarded([&] {
      with_type(t, [&]<class T>(Tag<T>) {
        on(hs[g], [&]<class A>(A& x) {
          if constexpr (requires { typename A::value_type; x.allocate(1); } &&
                        !requires { x.use_count(); }) {
            using B = typename std::allocator_traits<A>::template rebind_alloc<T>;
            if constexpr (sizeof(T) >= 8 || std::is_same_v<B, SA<T>>) p = new B(x);
          }
        });
      });
    }, true);
    LOG.ev("rb", h, t, g, r, Sys::maps, Sys::unmaps, Sys::new_failed);
    if (r != "ok") return;
    Slot s = hs[g];
    s.t = t;
    s.obj = p;
    if (s.k == 'H') s.a = s.b = ++ids;
    put(h, s);
  }
  void equal(int h, int g) {
    bool eq = false, ne = false;
    on(hs[h], [&]<class A>(A& x) {
      on(hs[g], [&]<class B>(B& y) {
        if constexpr (requires { x == y; x != y; } && !std::is_same_v<A, PoolP> && !std::is_same_v<A, MultiP> &&
                      !std::is_same_v<B, PoolP> && !std::is_same_v<B, MultiP>) {
          eq = x == y;
          ne = x != y;
        }
      });
    });
    LOG.ev("eq", h, g, eq, ne);
  }
  void drop(int h) {
    guarded([&] {
      on(hs[h], [&]<class A>(A& x) { delete &x; });
    });
    LOG.ev("dr", h, Sys::unmaps);
    hs[h] = {};
    orphans();
  }
  // blocks of pools nobody holds any more are gone
  void orphans() {
    std::vector<Block> keep;
    for (Block& b : blocks)
      if (reaches(b.h)) keep.push_back(b);
    blocks.swap(keep);
  }
  bool reaches(int id) {
    for (Slot& s : hs)
      if (s.k != 0 && (s.a == id || s.b == id)) return true;
    return false;
  }
  int pool_of(const Slot& s) {
    if (s.k == 'T' && (s.t == 5 || s.t == 8 || s.t == 13)) return s.b;
    return s.a;
  }

  // ---------------------------------------------------------------- requests
  std::vector<long> classes(Slot& s) {
    std::vector<long> v;
    const fc::MultiSizeHugePagePool* m = nullptr;
    on(s, [&](auto& x) {
      if constexpr (requires { x.get_pool(); }) m = x.get_pool().get();
      else if constexpr (requires { x->active_size_classes(); }) m = x.get();
    });
    if (m == nullptr) return v;
    for (auto& e : m->get_pools()) v.push_back(m->get_pool(e.first) != nullptr ? benc(e.first) : -1);
    std::sort(v.begin(), v.end());
    if (m->active_size_classes() != v.size()) v.push_back(-2);
    return v;
  }
  static unsigned char pat(int tag, std::size_t i) {
    return static_cast<unsigned char>(tag * 37 + static_cast<int>(i) * 11 + static_cast<int>(i >> 8));
  }
  // all bytes, but only some of those inside large blocks
  static std::size_t step(const Block& b, std::size_t i) {
    if (i > 4096 && b.bytes > (std::size_t(64) << 20) && i + 4096 < b.bytes)
      return std::min(b.bytes / 16, b.bytes - 4096 - i);
    return i > 4096 && i + 4096 + 61 < b.bytes && b.bytes > 65536 ? (b.bytes > (std::size_t(4) << 20) ? 4099 : 61) : 1;
  }
  static void fill(const Block& b) {
    unsigned char* p = static_cast<unsigned char*>(b.p);
    for (std::size_t i = 0; i < b.bytes; i += step(b, i)) p[i] = pat(b.tag, i);
  }
  static bool intact(const Block& b) {
    const unsigned char* p = static_cast<const unsigned char*>(b.p);
    for (std::size_t i = 0; i < b.bytes; i += step(b, i))
      if (p[i] != pat(b.tag, i)) return false;
    return true;
  }
  void alloc(int h, std::size_t n, std::size_t bytes, std::size_t align) {
    void* p = nullptr;
    std::size_t have = 0;
    std::string r = guarded([&] {
      on(hs[h], [&]<class A>(A& x) {
        if constexpr (requires { x.use_count(); }) {
          p = x->allocate(bytes, align);
          have = bytes;
        } else {
          p = x.allocate(n);
          have = n * sizeof(typename A::value_type);
        }
      });
    }, true);
    long want = benc(bytes), count = enc(n);
    if (hs[h].k == 'S') {
      std::size_t sz = static_cast<std::size_t>(type_size(hs[h].t));
      want = n > ~std::size_t(0) / sz ? -1 : benc(n * sz);
      if (unit > 1) count = want;
    }
    long rid = 0, off = 0;
    if (r == "ok" && p != nullptr) Sys::where(p, rid, off);
    LOG.ch('[');
    LOG.str("al");
    auto item = [](const auto& x) { LOG.ch(','); LOG.put(x); };
    item(h); item(count); item(want); item(acap(align));
    LOG.ch(','); LOG.ch('[');
    if (r == "ok" && p == nullptr) LOG.str("null");
    else {
      LOG.put(r);
      if (r == "ok") item(rid), item(off);
    }
    LOG.ch(']');
    item(Sys::maps); item(Sys::unmaps); item(Sys::new_failed); item(classes(hs[h]));
    LOG.ch(']'); LOG.ch('\n');
    ++LOG.lines;
    if (p != nullptr && r == "ok") {
      Block b{p, have, n, bytes, ++tags, pool_of(hs[h]), rid, off};
      if (rid != 0) {
        fill(b);
        blocks.push_back(b);
      }
    }
  }
  static long type_size(int t) {
    return with_type(t, []<class T>(Tag<T>) { return static_cast<long>(sizeof(T)); });
  }
  // handles that may release block b
  std::vector<int> owners(const Block& b, int via) {
    std::vector<int> v;
    for (int i = 0; i < static_cast<int>(hs.size()); ++i) {
      Slot& s = hs[i];
      if (s.k == 0 || pool_of(s) != b.h) continue;
      if (s.k == 'P' || s.k == 'M') v.push_back(i);
      else {
        long size = type_size(s.t);
        if (s.k == 'S' ? b.bytes % static_cast<std::size_t>(size) == 0 : static_cast<long>(b.bytes) == size)
          v.push_back(i);
      }
    }
    return v;
  }
  void release(std::size_t i) {
    Block b = blocks[i];
    auto v = owners(b, 0);
    if (v.empty()) return;
    int h = v[rng.below(static_cast<int>(v.size()))];
    if (!intact(b)) LOG.ev("chk", std::vector<int>{b.tag});
    blocks[i] = blocks.back();
    blocks.pop_back();
    give_back(h, b.p, b.bytes, b.rid, b.off, 0);
  }
  void give_back(int h, void* p, std::size_t bytes, long rid, long off, int wrong_n) {
    std::size_t n = 1;
    std::string r = guarded([&] {
      on(hs[h], [&]<class A>(A& x) {
        if constexpr (requires { x.use_count(); }) {
          if (wrong_n == 1) bytes = 0;
          x->deallocate(p, bytes);
        } else {
          using T = typename A::value_type;
          n = wrong_n == 0 ? bytes / sizeof(T) : wrong_n == 1 || hs[h].k == 'S' ? 0 : wrong_count();
          x.deallocate(static_cast<T*>(p), n);
        }
      });
    });
    long count = unit > 1 && hs[h].k == 'S' ? bcap(n * static_cast<std::size_t>(type_size(hs[h].t))) : cap(n);
    LOG.ev("fr", h, count, bcap(bytes), rid, off, r, Sys::unmaps);
  }
  void check_all() {
    std::vector<int> bad;
    for (Block& b : blocks)
      if (!intact(b)) bad.push_back(b.tag);
    LOG.ev("chk", bad);
  }
  template <class X>
  static void stat_row(const X& x, long c, bool first) {
    if (!first) LOG.ch(',');
    LOG.ch('[');
    LOG.put(x.using_hugepages());
    LOG.ch(',');
    LOG.put(fcap(x.bytes_remaining()));
    LOG.ch(',');
    if constexpr (requires { x.initial_size(); }) {
      LOG.put(bcap(x.initial_size()));
      LOG.ch(',');
      LOG.put(bcap(x.growth_size()));
    } else {
      LOG.put(-1);
      LOG.ch(',');
      LOG.put(-1);
    }
    LOG.ch(',');
    LOG.put(std::vector<long>{cap(x.get_allocations()), cap(x.get_deallocations()), cap(x.get_growth_events()),
                              bcap(x.get_bytes_allocated()), bcap(x.get_current_usage()), bcap(x.get_peak_usage())});
    LOG.ch(',');
    LOG.put(c);
    LOG.ch(']');
  }
  void stats(int h) {
    Slot& s = hs[h];
    LOG.ch('[');
    LOG.str("st");
    LOG.ch(',');
    LOG.put(h);
    LOG.ch(',');
    LOG.ch('[');
    auto multi = [&](const fc::MultiSizeHugePagePool& m) {
      bool first = true;
      for (auto& e : m.get_pools()) {
        stat_row(*e.second, benc(e.first), first);
        first = false;
      }
    };
    on(s, [&](auto& x) {
      if constexpr (requires { x.get_policy(); }) {
        stat_row(*x.get_policy().leaf_pool_, 0, true);
        stat_row(*x.get_policy().internal_pool_, 0, false);
      } else if constexpr (requires { x.get_pool(); }) multi(*x.get_pool());
      else if constexpr (requires { x->get_pools(); }) multi(*x);
      else if constexpr (requires { x.use_count(); }) stat_row(*x, 0, true);
      else stat_row(x, 0, true);
    });
    LOG.ch(']');
    LOG.ch(']');
    LOG.ch('\n');
    ++LOG.lines;
    if (s.k == 'M') {
      bool any = (*static_cast<MultiP*>(s.obj))->using_hugepages();
      LOG.ev("hg", h, any);
    }
  }
  void begin() {
    while (!hs.empty()) {
      int h = pick("PMHST");
      if (h < 0) break;
      drop(h);
    }
    std::vector<std::vector<long>> tt;
    for (int t = 1; t <= NT; ++t) tt.push_back(with_type(t, []<class T>(Tag<T>) { return type_row<T>(); }));
    LOG.ev("reset", Sys::mapped(), tt);
    Sys::reset();
    hs.clear();
    blocks.clear();
  }

  // --------------------------------------------------------------- programs
  // Everything at random. kinds: the handles to start from; fault: percent of
  // calls with refused memory.
  std::size_t vast_size() {
    static const std::size_t units[] = {1, 2, 3, 16, 100, 1000, 32768, 40000, 65535, 65536, 65537, 81920, 98304, 131072};
    return unit * units[rng.below(14)];
  }
  std::size_t some_size(int big) {
    if (unit > 1) return vast_size();
    static const std::size_t base[] = {8, 16, 24, 32, 40, 64, 100, 120, 128, 192, 250, 256, 320, 384, 500, 512, 513,
                                       640, 768, 1000, 1024, 1100, 2000, 2048, 2049, 3000, 4096, 5000, 8192, 9000, 20000};
    int n = static_cast<int>(sizeof base / sizeof *base);
    if (rng.chance(1, 60)) return std::size_t(1) << rng.in(3, 18);
    if (big != 0 && rng.chance(1, 120)) return ~std::size_t(0);
    if (big != 0 && rng.chance(1, 120)) return (std::size_t(1) << rng.in(33, 63)) + static_cast<std::size_t>(rng.below(3));
    return base[rng.below(n)];
  }
  // a number of objects other than one, also one that looks like one when cut
  std::size_t wrong_count() {
    switch (rng.below(5)) {
      case 0: case 1: return 0;
      case 2: return static_cast<std::size_t>(rng.in(2, 5));
      case 3: return std::size_t(1) << rng.in(3, 24);
      default: return (std::size_t(1) << rng.in(8, 62)) + 1;
    }
  }
  std::vector<std::size_t> palette;
  std::size_t pick_size() { return palette[static_cast<std::size_t>(rng.below(static_cast<int>(palette.size())))]; }
  std::size_t pick_align() {
    if (unit > 1) return std::size_t(1) << rng.in(3, 21);
    static const std::size_t al[] = {8, 8, 8, 16, 32, 64, 64, 64, 128, 256, 512, 4096, 8192, 65536};
    return rng.chance(2, 3) ? al[rng.below(8)] : al[rng.below(14)];
  }
  std::size_t pool_size() {
    if (unit > 1) return rng.chance(1, 2) ? vast_size() : unit * static_cast<std::size_t>(rng.in(1, 150000));
    switch (rng.below(5)) {
      case 0: return static_cast<std::size_t>(rng.in(1, 300));
      case 1: return static_cast<std::size_t>(rng.in(300, 5000));
      case 2: return static_cast<std::size_t>(rng.in(1, 8)) * 4096;
      case 3: return static_cast<std::size_t>(rng.in(1, 100000));
      default: return HUGE / 2 + static_cast<std::size_t>(rng.in(-4000, 4000));
    }
  }
  int some_type(char k) {
    if (unit > 1) return k == 'S' ? 1 : rng.in(11, NT);
    return rng.in(1, k == 'S' ? NTANY : NTSINGLE);
  }

  void program(const char* kinds, int steps, int maxblocks, int fault, int newfault, int handles) {
    begin();
    palette.clear();
    for (int i = rng.in(2, 7); i > 0; --i) palette.push_back(some_size(0));
    auto faults = [&] {
      Sys::new_fail = rng.chance(newfault, 100) ? rng.in(1, 4) : 0;
      Sys::plain_pct = rng.chance(fault, 100) ? rng.in(0, 60) : 100;
    };
    int nk = static_cast<int>(std::strlen(kinds));
    auto create = [&] {
      char k = kinds[rng.below(nk)];
      bool want = rng.chance(1, 2);
      Sys::huge_pct = rng.chance(1, 2) ? 100 : rng.in(0, 100);
      faults();
      switch (k) {
        case 'P': new_pool(pool_size(), want, pool_size()); break;
        case 'H': new_huge(some_type('H'), pool_size(), want, pool_size()); break;
        case 'M':
        case 'S': new_multi(pool_size(), want, pool_size()); break;
        case 'T':
          if (int a = pick("P"), b = pick("P"); a >= 0 && rng.chance(1, 2)) new_two_of(some_type('T'), a, b);
          else new_two(some_type('T'), pool_size(), pool_size(), want, pool_size(), pool_size());
      }
    };
    for (int i = 0; i < 3; ++i) create();
    bool filling = true;
    for (int s = 0; s < steps; ++s) {
      if (rng.chance(1, 120)) filling = !filling;
      if (rng.chance(1, 500) && !blocks.empty()) {
        while (!blocks.empty() && rng.chance(60, 61)) {
          std::size_t was = blocks.size();
          release(static_cast<std::size_t>(rng.below(static_cast<int>(blocks.size()))));
          if (blocks.size() == was) break;
        }
      }
      faults();
      if (rng.chance(1, 25)) Sys::huge_pct = rng.chance(1, 2) ? 100 : rng.in(0, 100);
      int w = rng.chance(handles, 100) ? rng.in(78, 99) : rng.below(100);
      if (w < 78) {
        bool take = static_cast<int>(blocks.size()) < maxblocks && rng.chance(filling ? 62 : 40, 100);
        int h = pick("PMHST");
        if (h < 0) {
          create();
        } else if (take) {
          char k = hs[h].k;
          std::size_t n = 1;
          std::size_t bytes = rng.chance(1, 30) ? some_size(1) : pick_size(), al = pick_align();
          if (k == 'S') {
            n = static_cast<std::size_t>(rng.chance(1, 4) ? rng.in(0, 600) : rng.in(1, 12));
            if (rng.chance(1, 60)) n = (~std::size_t(0)) / static_cast<std::size_t>(rng.in(1, 40)) - static_cast<std::size_t>(rng.below(3));
            std::size_t sz = static_cast<std::size_t>(type_size(hs[h].t));
            if (unit > 1) n = pick_size() / sz;
            if (n <= ~std::size_t(0) / sz && n * sz > std::size_t(1) << 63) n = 1;  // not told apart by enc()
          } else if (rng.chance(1, 20)) {
            n = wrong_count();
            Sys::new_fail = 0;  // the error for a wrong count needs memory itself
          }
          if (rng.chance(1, 60)) bytes = 0;
          alloc(h, n, k == 'P' || k == 'M' ? bytes : 0, k == 'P' || k == 'M' ? al : 0);
        } else if (!blocks.empty()) {
          release(static_cast<std::size_t>(rng.below(static_cast<int>(blocks.size()))));
        }
        if (h >= 0 && hs[h].k != 0 && rng.chance(1, 2)) stats(h);
      } else if (w < 80) {
        create();
      } else if (w < 83) {
        int h = pick("PMHST");
        int same = 0;
        for (Slot& x : hs) same += x.k != 0;
        // keep pools with blocks in use reachable most of the time
        if (h >= 0 && same > 2 && (rng.chance(1, 12) || still(h))) drop(h);
      } else if (w < 86) {
        int h = pick("PMHST");
        if (h >= 0 && hs.size() < 24) copy(h, rng.chance(1, 2));
      } else if (w < 88) {
        int h = pick("HST");
        if (h >= 0) {
          std::vector<int> v;
          for (int i = 0; i < static_cast<int>(hs.size()); ++i)
            if (hs[i].k == hs[h].k && hs[i].t == hs[h].t) v.push_back(i);
          int g = v[rng.below(static_cast<int>(v.size()))];
          if (rng.chance(1, 3)) swap(h, g);
          else if (rng.chance(1, 8) || still(h)) assign(h, g, rng.chance(1, 2));
        }
      } else if (w < 91) {
        int h = pick("HST");
        if (h >= 0 && hs.size() < 24) rebind(h, some_type(hs[h].k));
      } else if (w < 94) {
        int h = pick("HST"), g = h < 0 ? -1 : pick(kind(hs[h].k).c_str());
        if (h >= 0) equal(h, g);
      } else if (w < 96) {
        int h = pick("ST");
        if (h >= 0 && hs.size() < 24) extract(h, rng.below(2));
        int m = pick("M");
        if (m >= 0 && hs.size() < 24 && std::strchr(kinds, 'S')) new_multi_alloc(some_type('S'), m);
      } else if (w < 98) {
        int h = pick("PMHST");  // releases that must do nothing
        if (h >= 0) {
          if (!blocks.empty() && rng.chance(1, 2)) {
            std::size_t i = static_cast<std::size_t>(rng.below(static_cast<int>(blocks.size())));
            auto v = owners(blocks[i], 0);
            if (!v.empty()) {
              int g = v[rng.below(static_cast<int>(v.size()))];
              bool single = hs[g].k == 'H' || hs[g].k == 'T';
              give_back(g, blocks[i].p, blocks[i].bytes, blocks[i].rid, blocks[i].off, single ? (rng.chance(1, 3) ? 1 : 2) : 1);
            }
          } else {
            give_back(h, nullptr, 64, 0, 0, 0);
          }
        }
      } else {
        check_all();
      }
    }
    check_all();
    // everything released: nothing in use, then nothing mapped
    while (!blocks.empty()) {
      std::size_t was = blocks.size();
      release(0);
      if (blocks.size() == was) break;
    }
    for (int h : live("PMHST")) stats(h);
  }
  // dropping h leaves every block's pool reachable
  bool still(int h) {
    Slot s = hs[h];
    hs[h].k = 0;
    bool ok = true;
    for (Block& b : blocks)
      if (!reaches(b.h)) ok = false;
    hs[h] = s;
    return ok;
  }
  // Programs from the model (PoolMC), one per line:
  //   n M, M x (granted, place)            a new pool
  //   a size align M, M x (granted, place)
  //   f k                                  release the k-th block allocated
  void replay(const char* file, bool want, long first, long step, long unit) {
    std::ifstream f(file);
    if (!f) Log::fatal("program file");
    std::string line;
    while (std::getline(f, line)) {
      begin();
      std::vector<std::size_t> at;  // tag of the k-th allocation
      std::size_t i = 0;
      std::vector<std::string> w;
      for (std::size_t j; i < line.size(); i = j + 1) {
        j = std::min(line.find(' ', i), line.size());
        w.push_back(line.substr(i, j - i));
      }
      auto num = [&](std::size_t k) { return std::atol(w.at(k).c_str()); };
      auto env = [&](std::size_t& k) {
        long m = num(k++);
        for (; m > 0; --m) {
          Sys::script.push_back(static_cast<int>(num(k++)));
          int pl = static_cast<int>(num(k++));
          if (Sys::script.back()) Sys::places.push_back(static_cast<int>(pl * unit / 4096));
        }
      };
      Sys::huge_pct = Sys::plain_pct = 100;
      for (std::size_t k = 0; k < w.size();) {
        std::string op = w[k++];
        if (op == "n") {
          env(k);
          new_pool(static_cast<std::size_t>(first * unit), want, static_cast<std::size_t>(step * unit));
        } else if (op == "a") {
          long s = num(k++), a = num(k++);
          env(k);
          int was = tags;
          alloc(0, 1, static_cast<std::size_t>(s * unit), static_cast<std::size_t>(a * unit));
          at.push_back(static_cast<std::size_t>(tags > was ? tags : 0));
        } else {
          std::size_t t = at.at(static_cast<std::size_t>(num(k++)));
          for (std::size_t b = 0; b < blocks.size(); ++b)
            if (t != 0 && static_cast<std::size_t>(blocks[b].tag) == t) {
              release(b);
              break;
            }
        }
      }
      check_all();
      stats(0);
    }
  }

  // ---------------------------------------------------------- trees on pools
  // Trees over pools that may be refused memory. Which block goes where is the
  // tree's business; here: what is mapped, what is unmapped when, and that
  // the contents survive.
  template <class A, class Mk>
  void trees(Mk make, int steps, int fault) {
    begin();
    using Tree = fc::btree<int, T2, 8, 8, std::less<int>, fc::SearchMode::Binary, A>;
    using Ref = std::map<int, std::uint32_t>;
    struct One { Tree* t; Ref m; };
    std::vector<One> v;
    auto tr = [&](int ends) { LOG.ev("tr", ends, Sys::maps, Sys::unmaps); };
    auto faulty = [&] {
      Sys::plain_pct = rng.chance(fault, 100) ? rng.in(0, 70) : 100;
      Sys::huge_pct = rng.chance(1, 2) ? 100 : rng.in(0, 100);
    };
    A* root = nullptr;
    Sys::plain_pct = 100;
    guarded([&] { root = make(); });
    tr(0);
    if (root == nullptr) return;
    bool released = false;
    auto same = [&](One& o) {
      auto i = o.m.begin();
      bool ok = o.t->size() == o.m.size();
      for (auto it = o.t->begin(); ok && it != o.t->end(); ++it, ++i)
        ok = i != o.m.end() && it->first == i->first && it->second.a[0] == i->second && it->second.a[5] == ~i->second;
      return ok && i == o.m.end();
    };
    for (int s = 0; s < steps; ++s) {
      if ((v.empty() || rng.chance(1, 150)) && v.size() < 4 && !released) {
        faulty();
        Tree* t = nullptr;
        guarded([&] { t = new Tree(*root); });
        tr(0);
        if (t != nullptr) v.push_back({t, {}});
        continue;
      }
      if (v.empty()) continue;
      std::size_t i = static_cast<std::size_t>(rng.below(static_cast<int>(v.size())));
      One& o = v[i];
      faulty();
      int k = rng.below(600), w = rng.below(100);
      if (w < 55) {
        std::uint32_t x = static_cast<std::uint32_t>(rng.next());
        T2 val{{x, 0, 0, 0, 0, ~x}};
        std::string r = guarded([&] { o.t->insert(k, val); });
        if (r == "ok") o.m.emplace(k, x);
        tr(0);
      } else if (w < 90) {
        guarded([&] { o.t->erase(k); });
        o.m.erase(k);
        tr(0);
      } else if (w < 92) {
        std::string r = guarded([&] { o.t->clear(); });
        if (r == "ok") o.m.clear();
        tr(0);
      } else if (w < 93 && v.size() < 4) {
        Tree* t = nullptr;
        guarded([&] { t = new Tree(*o.t); });
        tr(0);
        if (t != nullptr) {
          Ref m = o.m;
          v.push_back({t, m});
        }
      } else if (w < 95 && v.size() > 1) {
        Sys::plain_pct = 100;  // moving may not fail
        std::size_t j = (i + 1) % v.size();
        guarded([&] { *v[j].t = std::move(*o.t); });
        v[j].m = std::move(o.m);
        o.m.clear();
        tr(1);
      } else if (w < 96 && v.size() > 1) {
        std::size_t j = (i + 1) % v.size();
        guarded([&] { o.t->swap(*v[j].t); });
        std::swap(o.m, v[j].m);
        tr(1);
      } else if (w < 97) {
        guarded([&] { delete o.t; });
        v.erase(v.begin() + static_cast<long>(i));
        tr(1);
      } else if (s > steps / 2 && !released) {
        released = true;
        guarded([&] { delete root; });
        tr(1);
      }
      if (s % 25 == 7) {
        // the allocator a tree hands out is the one it was made with
        if constexpr (!std::is_same_v<A, HA<std::pair<int, T2>>>) {
          bool eq = true;
          for (One& x : v) {
            guarded([&] {
              A a = x.t->get_allocator();
              eq = eq && (released || a == *root) && a == x.t->get_allocator();
              auto* p = a.allocate(1);
              eq = eq && p != nullptr;
              a.deallocate(p, 1);
            });
            tr(0);
          }
          LOG.ev("tg", eq);
        }
      }
      if (s % 40 == 0) {
        std::vector<int> bad;
        for (One& x : v)
          if (!same(x)) bad.push_back(1);
        LOG.ev("chk", bad);
      }
    }
    for (One& o : v) {
      if (!same(o)) LOG.ev("chk", std::vector<int>{1});
      guarded([&] { delete o.t; });
      tr(1);
    }
    if (!released) {
      guarded([&] { delete root; });
      tr(1);
    }
  }
  void all_trees(int n, int fault) {
    auto sz = [&] { return rng.chance(1, 3) ? pool_size() : static_cast<std::size_t>(rng.in(500, 9000)); };
    using KV = std::pair<int, T2>;
    bool want = rng.chance(1, 2);
    trees<HA<KV>>([&] { return new HA<KV>(sz(), want, sz()); }, n, fault);
    trees<SA<KV>>([&] { return new SA<KV>(fc::make_multi_size_hugepage_allocator<KV>(sz(), want, sz())); }, n, fault);
    trees<TA<KV>>([&] { return new TA<KV>(fc::make_two_pool_allocator<int, T2>(sz(), sz(), want, sz(), sz())); }, n, fault);
  }
  // Containers of the standard library over the allocators. (Not std::list over
  // per-type pools: it converts its allocator where nothing may fail, and
  // expects such a conversion not to make a new pool.)
  template <class C, class A, bool Shares, class Mk>
  void container(Mk make, int steps, int fault) {
    begin();
    constexpr bool keyed = requires { typename C::key_type; };
    constexpr bool flat = requires(C c) { c.reserve(1); c.data(); };
    using Ref = std::conditional_t<keyed, std::map<int, std::uint32_t>, std::vector<std::uint32_t>>;
    struct One { C* c; Ref m; int root; };
    std::vector<One> v;
    auto tr = [&](int ends) {
      LOG.ev("tr", ends, Sys::maps, Sys::unmaps);
      Sys::maps.clear();
      Sys::unmaps.clear();
    };
    auto calm = [&] { Sys::plain_pct = 100; };
    auto faulty = [&] {
      Sys::plain_pct = rng.chance(fault, 100) ? rng.in(0, 70) : 100;
      Sys::huge_pct = rng.chance(1, 2) ? 100 : rng.in(0, 100);
    };
    A* roots[2] = {nullptr, nullptr};
    for (A*& r : roots) {
      calm();
      guarded([&] { r = make(); });
      tr(0);
      if (r == nullptr) return;
    }
    bool released = false;
    auto val = [](std::uint32_t x) { return T2{{x, 1, 2, 3, 4, ~x}}; };
    auto good = [](const T2& t, std::uint32_t x) { return t.a[0] == x && t.a[1] == 1 && t.a[4] == 4 && t.a[5] == ~x; };
    auto same = [&](One& o) {
      if (static_cast<std::size_t>(std::distance(o.c->begin(), o.c->end())) != o.m.size()) return false;
      if constexpr (keyed) {
        for (auto& [k, t] : *o.c) {
          auto i = o.m.find(k);
          if (i == o.m.end() || !good(t, i->second)) return false;
        }
      } else {
        auto i = o.m.begin();
        for (auto& t : *o.c)
          if (!good(t, *i++)) return false;
      }
      return true;
    };
    for (int s = 0; s < steps; ++s) {
      if ((v.empty() || rng.chance(1, 100)) && v.size() < 4 && !released) {
        faulty();
        int r = rng.below(2);
        C* c = nullptr;
        guarded([&] { c = new C(*roots[r]); });
        tr(0);
        if (c != nullptr) v.push_back({c, {}, r});
        continue;
      }
      if (v.empty()) continue;
      std::size_t i = static_cast<std::size_t>(rng.below(static_cast<int>(v.size()))), j = (i + 1) % v.size();
      One &o = v[i], &q = v[j];
      faulty();
      int k = rng.below(90), w = rng.below(100);
      std::uint32_t x = static_cast<std::uint32_t>(rng.next());
      if (w < 50) {
        if constexpr (keyed) {
          std::string r = guarded([&] { o.c->emplace(k, val(x)); });
          if (r == "ok") o.m.emplace(k, x);
        } else {
          std::string r = guarded([&] { o.c->push_back(val(x)); });
          if (r == "ok") o.m.push_back(x);
        }
        tr(0);
      } else if (w < 80) {
        if constexpr (keyed) {
          guarded([&] { o.c->erase(k); });
          o.m.erase(k);
        } else if (!o.m.empty()) {
          guarded([&] { o.c->pop_back(); });
          o.m.pop_back();
        }
        tr(0);
      } else if (w < 82) {
        guarded([&] { o.c->clear(); });
        o.m.clear();
        tr(0);
      } else if (w < 84 && v.size() < 4) {
        C* c = nullptr;
        guarded([&] { c = new C(*o.c); });
        tr(0);
        if (c != nullptr) {
          Ref m = o.m;
          v.push_back({c, m, o.root});
        }
      } else if (w < 86 && v.size() < 4) {
        C* c = nullptr;
        calm();
        guarded([&] { c = new C(std::move(*o.c)); });
        tr(0);
        if (c != nullptr) {
          Ref m = std::move(o.m);
          o.m.clear();
          guarded([&] { o.c->clear(); });
          tr(0);
          v.push_back({c, m, o.root});
        }
      } else if (w < 88 && i != j) {
        calm();
        guarded([&] { *q.c = std::move(*o.c); });
        tr(1);
        q.m = std::move(o.m);
        q.root = o.root;
        o.m.clear();
        guarded([&] { o.c->clear(); });
        tr(1);
      } else if (w < 90 && i != j) {
        calm();
        std::string r = guarded([&] { *q.c = *o.c; });
        tr(1);
        q.m = o.m;
        if (r != "ok") {
          guarded([&] { q.c->clear(); });
          tr(0);
          q.m.clear();
        }
      } else if (w < 92 && i != j && o.root == q.root && Shares) {
        guarded([&] { o.c->swap(*q.c); });
        std::swap(o.m, q.m);
        tr(0);
      } else if (w < 93) {
        guarded([&] { delete o.c; });
        v.erase(v.begin() + static_cast<long>(i));
        tr(1);
      } else if (w < 96) {
        if constexpr (flat) {
          guarded([&] { rng.chance(1, 2) ? o.c->shrink_to_fit() : o.c->reserve(o.c->size() + static_cast<std::size_t>(rng.below(200))); });
          tr(0);
        }
      } else if (s > steps / 2 && !released && rng.chance(1, 5)) {
        released = true;
        for (A* r : roots) {
          guarded([&] { delete r; });
          tr(1);
        }
      }
      if constexpr (Shares)
        if (s % 25 == 7) {
          bool eq = true;
          for (One& y : v) {
            guarded([&] {
              A a = y.c->get_allocator();
              if (!released) eq = eq && a == *roots[y.root] && a != *roots[1 - y.root];
              for (One& z : v) eq = eq && (a == A(z.c->get_allocator())) == (y.root == z.root);
            });
            tr(0);
          }
          LOG.ev("tg", eq);
        }
      if (s % 40 == 0) {
        std::vector<int> bad;
        for (One& y : v)
          if (!same(y)) bad.push_back(1);
        LOG.ev("chk", bad);
      }
    }
    for (One& o : v) {
      if (!same(o)) LOG.ev("chk", std::vector<int>{1});
      guarded([&] { delete o.c; });
      tr(1);
    }
    if (!released)
      for (A* r : roots) {
        guarded([&] { delete r; });
        tr(1);
      }
  }
  void all_containers(int n, int fault) {
    auto sz = [&] { return rng.chance(1, 3) ? pool_size() : static_cast<std::size_t>(rng.in(500, 9000)); };
    bool want = rng.chance(1, 2);
    using P = std::pair<const int, T2>;
    auto S = [&]<class T>(Tag<T>) { return [&] { return new SA<T>(fc::make_multi_size_hugepage_allocator<T>(sz(), want, sz())); }; };
    container<std::map<int, T2, std::less<int>, SA<P>>, SA<P>, true>(S(Tag<P>()), n, fault);
    container<std::unordered_map<int, T2, std::hash<int>, std::equal_to<int>, SA<P>>, SA<P>, true>(S(Tag<P>()), n, fault);
    container<std::vector<T2, SA<T2>>, SA<T2>, true>(S(Tag<T2>()), n, fault);
    container<std::deque<T2, SA<T2>>, SA<T2>, true>(S(Tag<T2>()), n, fault);
    container<std::list<T2, SA<T2>>, SA<T2>, true>(S(Tag<T2>()), n, fault);
    container<std::map<int, T2, std::less<int>, HA<P>>, HA<P>, false>([&] { return new HA<P>(sz(), want, sz()); }, n, fault);
    container<std::map<int, T2, std::less<int>, TA<P>>, TA<P>, true>(
        [&] {
          return new TA<P>(fc::TwoPoolPolicy{std::make_shared<fc::HugePagePool>(sz(), want, sz()),
                                             std::make_shared<fc::HugePagePool>(sz(), want, sz())});
        }, n, fault);
  }
  void size_classes(int upto) {
    for (int lo = 0; lo < upto; lo += 1024) {
      std::vector<long> v;
      for (int i = lo; i < lo + 1024; ++i)
        v.push_back(enc(fc::MultiSizeHugePagePool::get_size_class(static_cast<std::size_t>(i))));
      LOG.ev("cls", lo, v);
    }
    auto digits = [](std::size_t x) {
      std::vector<long> d;
      for (int i = 3; i >= 0; --i) d.push_back(static_cast<long>((x >> (16 * i)) & 0xffff));
      return d;
    };
    auto one = [&](std::size_t x) {
      if (x > 2048) LOG.ev("big", digits(x), digits(fc::MultiSizeHugePagePool::get_size_class(x)));
    };
    for (int e = 11; e < 64; ++e)
      for (int d = -2; d <= 2; ++d) one((std::size_t(1) << e) + static_cast<std::size_t>(static_cast<long>(d)));
    for (int i = 0; i < 300; ++i) one(rng.next() >> rng.below(53));
    for (std::size_t d = 0; d < 4; ++d) one(~std::size_t(0) - d);
  }
  // a request of every size in [lo, hi): class boundaries as really used
  void unnamed() {
    std::size_t quota = Sys::quota;
    Sys::quota = std::size_t(900) << 20;
    Sys::plain_pct = 100;
    auto size = [&] { return std::size_t(rng.in(3000, 30000)); };
    for (given = 5; given >= 0; --given)
      for (int huge : {0, 100, 50}) {
        begin();
        Sys::huge_pct = huge;
        auto again = [&](int h) {
          for (int i = 0; i < 3; ++i) alloc(h, 1, rng.chance(1, 2) ? 700 : 100, 64);
          stats(h);
        };
        int h = fresh();
        new_pool(size(), rng.chance(1, 2), size());
        if (hs[h].k != 0) {
          again(h);
          if (given == 0) {
            alloc(h, 1, std::size_t(250) << 20, 64);
            stats(h);
            alloc(h, 1, std::size_t(7) << 20, 64);
          } else {
            alloc(h, 1, 32768, 64);
          }
          stats(h);
        }
        h = fresh();
        new_huge(some_type('H'), size(), rng.chance(1, 2), size());
        if (hs[h].k != 0) again(h);
        h = fresh();
        new_two(some_type('T'), size(), size(), rng.chance(1, 2), size(), size());
        if (hs[h].k != 0) again(h);
        for (int i = 0; i < 4; ++i) {
          h = fresh();
          new_multi(size(), rng.chance(1, 2), size());
          again(h);
          int m = h;
          h = fresh();
          new_multi_alloc(some_type('S'), m);
          again(h);
          alloc(m, 1, std::size_t(rng.chance(1, 4) ? 48 : 4) << 20, 64);
          stats(m);
        }
        check_all();
      }
    given = 9;
    begin();
    Sys::quota = quota;
  }
  void every_size(int lo, int hi, int step) {
    begin();
    new_multi(4096, false, 16384);
    int m = static_cast<int>(hs.size()) - 1;
    new_multi_alloc(9, m);
    for (int n = lo; n < hi; n += step) {
      int h = rng.below(2);
      alloc(h, static_cast<std::size_t>(n), static_cast<std::size_t>(n), 8);
      if (blocks.size() > 30) release(static_cast<std::size_t>(rng.below(static_cast<int>(blocks.size()))));
      if (n % 16 == 0) stats(m);
    }
    check_all();
  }
};

inline int pool_main(int argc, char** argv) {
  LOG.open(sarg(argc, argv, "-o", "/dev/null"));
  PoolDriver d;
  long seed = arg(argc, argv, "-seed", 1);
  d.rng = Rng(static_cast<std::uint64_t>(seed));
  Sys::rng = Rng(static_cast<std::uint64_t>(seed) + 77);
  std::string prog = sarg(argc, argv, "-prog", "all");
  int n = static_cast<int>(arg(argc, argv, "-n", 300)), reps = static_cast<int>(arg(argc, argv, "-reps", 1));
  const char* kinds = sarg(argc, argv, "-kinds", "PHMST");
  unit = static_cast<std::size_t>(arg(argc, argv, "-unit", 1));
  if (prog == "replay") unit = 1;  // there it is the size of the model's unit
  if (unit > 1) Sys::quota = std::size_t(200) << 30;
  if (prog == "mix")
    for (int i = 0; i < reps; ++i)
      d.program(kinds, n, static_cast<int>(arg(argc, argv, "-blocks", 60)), static_cast<int>(arg(argc, argv, "-fault", 10)),
                static_cast<int>(arg(argc, argv, "-newfault", 0)), static_cast<int>(arg(argc, argv, "-handles", 0)));
  else if (prog == "classes") {
    d.begin();
    d.size_classes(static_cast<int>(arg(argc, argv, "-upto", 70000)));
  } else if (prog == "sizes") {
    d.every_size(1, 700, 1);
    d.every_size(700, 2400, 5);
    d.every_size(2030, 2070, 1);
    d.every_size(4080, 4110, 1);
    d.every_size(4000, 70000, 997);
  } else if (prog == "replay") {
    d.replay(sarg(argc, argv, "-file", ""), arg(argc, argv, "-want", 0) != 0, arg(argc, argv, "-first", 3),
             arg(argc, argv, "-step", 3), arg(argc, argv, "-unit", 4096));
  } else if (prog == "trees") {
    for (int i = 0; i < reps; ++i) d.all_trees(n, static_cast<int>(arg(argc, argv, "-fault", 10)));
  } else if (prog == "unnamed") {
    for (int i = 0; i < reps; ++i) d.unnamed();
  } else if (prog == "stl") {
    for (int i = 0; i < reps; ++i) d.all_containers(n, static_cast<int>(arg(argc, argv, "-fault", 10)));
  } else Log::fatal("program");
  d.begin();
  LOG.close();
  return 0;
}
}  // namespace vh
