// Shared parts of the conformance drivers: trace log, random numbers, key and
// value models. Drivers only record what the real containers do; the verdict is
// TLC's, which checks the recorded trace against the specifications in ../spec.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <strings.h>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- trace log
// One JSON array per line, kept in a shared file mapping so that what was
// recorded survives a crash of the code under test.
class Log {
 public:
  char* base = nullptr;
  std::size_t pos = 0, cap = 0, line = 0, lines = 0;
  int fd = -1;
  void open(const char* path, std::size_t capacity = std::size_t(512) << 20) {
    cap = capacity;
    fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ::ftruncate(fd, static_cast<off_t>(cap)) != 0) fatal("open");
    void* p = ::mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) fatal("mmap");
    base = static_cast<char*>(p);
  }
  // a buffer in memory, for another thread's events
  void buffer(std::size_t capacity) {
    cap = capacity;
    void* p = ::mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) fatal("mmap");
    base = static_cast<char*>(p);
  }
  void append(const Log& o) {
    if (pos + o.pos + 64 > cap) fatal("trace too long");
    std::memcpy(base + pos, o.base, o.pos);
    pos += o.pos;
    lines += o.lines;
    ::munmap(o.base, o.cap);
  }
  void close() {
    if (fd >= 0) {
      if (::ftruncate(fd, static_cast<off_t>(pos)) != 0) fatal("truncate");
      ::close(fd);
      fd = -1;
    }
  }
  [[noreturn]] static void fatal(const char* what) {
    std::fprintf(stderr, "HARNESS-ERROR: %s\n", what);
    _exit(77);
  }
  void ch(char c) {
    if (pos + 64 > cap) fatal("trace too long");
    base[pos++] = c;
  }
  void num(long long v) {
    char b[24];
    int i = 0;
    bool neg = v < 0;
    unsigned long long u = neg ? 0ULL - static_cast<unsigned long long>(v)
                               : static_cast<unsigned long long>(v);
    do {
      b[i++] = static_cast<char>('0' + u % 10);
      u /= 10;
    } while (u != 0);
    if (neg) b[i++] = '-';
    while (i > 0) ch(b[--i]);
  }
  void str(const char* s) {
    ch('"');
    while (*s != 0) ch(*s++);
    ch('"');
  }
  void put(const char* s) { str(s); }
  void put(const std::string& s) { str(s.c_str()); }
  template <class T>
    requires std::is_arithmetic_v<T>
  void put(T v) {
    num(static_cast<long long>(v));
  }
  template <class T>
  void put(const std::vector<T>& v) {
    ch('[');
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (i != 0) ch(',');
      put(v[i]);
    }
    ch(']');
  }
  template <class... A>
  void ev(const char* name, const A&... a) {
    ch('[');
    str(name);
    ((ch(','), put(a)), ...);
    ch(']');
    ch('\n');
    ++lines;
  }
};
inline thread_local Log LOG;  // reader threads record into buffers of their own

// ------------------------------------------------------------ random numbers
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed) {
    s = next() ^ (seed << 32);  // nearby seeds must not give shifted streams
    s = next();
  }
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
  // uniform in [a, b]
  int in(int a, int b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
};

constexpr int REP = 65536;

// ------------------------------------------------------------------- values
// VT<V>: a value model. make(v) builds the value with number v (1 = default
// value), get(x) reads the number back; a value that is not one of the values
// made is reported as BAD, which no specification accepts.
constexpr int BAD = 65535;
template <class V>
struct VT;
template <class V>
  requires std::is_arithmetic_v<V>
struct VT<V> {
  static constexpr const char* name = "num";
  static constexpr bool tokens = false, maker = true;
  static constexpr int maxv = sizeof(V) == 1 ? 100 : sizeof(V) == 2 ? 30000 : 60000;
  struct Maker {
    int v;
    int* built;
    operator V() const { return ++*built, make(v); }
  };
  static V make(int v) { return static_cast<V>(v - 1); }
  static int get(const V& x) {
    long long v = static_cast<long long>(x);
    return v < 0 || v > 60000 ? BAD : static_cast<int>(v) + 1;
  }
};
template <>
struct VT<std::string> {
  static constexpr const char* name = "string";
  static constexpr bool tokens = false, maker = false;
  static constexpr int maxv = 60000;
  static std::string make(int v) {
    if (v == 1) return {};
    std::string s = "v" + std::to_string(v);
    if (v % 3 == 0) s += std::string(40, static_cast<char>('a' + v % 26));
    return s;
  }
  // the same value from two arguments: call f with them
  template <class F>
  static auto parts(int v, F f) {
    std::string s = make(v) + "#";
    return f(s.c_str(), s.size() - 1);
  }
  // and from something that is not a string
  template <class F>
  static auto other(int v, F f) {
    std::string s = make(v);
    return f(s.c_str());
  }
  static int get(const std::string& x) {
    if (x.empty()) return 1;
    if (x[0] != 'v') return BAD;
    int v = std::atoi(x.c_str() + 1);
    return v > 1 && v < BAD && make(v) == x ? v : BAD;
  }
};
// Large value with every byte determined by the number.
template <std::size_t N, std::size_t Align = 8>
struct alignas(Align) Big {
  int v = 0;
  unsigned char b[N - 4] = {};
  Big() = default;
  explicit Big(int x) : v(x) {
    if (x != 0)
      for (std::size_t i = 0; i < N - 4; ++i) b[i] = byte(x, i);
  }
  static unsigned char byte(int x, std::size_t i) {
    return static_cast<unsigned char>((static_cast<unsigned>(x) * 31u + i * 7u) >> (i % 5));
  }
};
template <std::size_t N, std::size_t A>
struct VT<Big<N, A>> {
  static constexpr const char* name = "big";
  static constexpr bool tokens = false, maker = true;
  static constexpr int maxv = 60000;
  struct Maker {
    int v;
    int* built;
    operator Big<N, A>() const { return ++*built, make(v); }
  };
  static Big<N, A> make(int v) { return Big<N, A>(v - 1); }
  static int get(const Big<N, A>& x) {
    if (reinterpret_cast<std::uintptr_t>(&x) % A != 0) return BAD;
    if (x.v < 0 || x.v > 60000) return BAD;
    for (std::size_t i = 0; i < N - 4; ++i)
      if (x.b[i] != (x.v == 0 ? 0 : Big<N, A>::byte(x.v, i))) return BAD;
    return x.v + 1;
  }
};

// Injected failures: after arm(i), the i-th point passed (counting from 0)
// throws. Points are the building and copying of fault-aware values and, with
// the recording allocator, every node allocation.
struct Fault {
  struct Injected {};
  static inline long in = -1;
  static inline bool fired = false;
  static inline long total = 0;
  static void arm(long i) { in = i; fired = false; }
  static void off() { in = -1; }
  static bool hit() {
    if (in < 0 || in-- != 0) return false;
    fired = true;
    ++total;
    return true;
  }
  static void point() { if (hit()) throw Injected(); }
};

// Value that owns a counted token: a copy owns a token of its own, a move hands
// the token over. The number of live tokens is observable.
struct Tok {
  static inline long live = 0;
  struct T {
    int v, magic = 0x70CE;
    explicit T(int x) : v(x) {
      Fault::point();
      ++live;
    }
    T(const T&) = delete;
    ~T() {
      if (magic != 0x70CE) std::abort();  // released twice
      magic = 0;
      v = -1;
      --live;
    }
  };
  T* p = nullptr;
  Tok() = default;
  explicit Tok(int v) : p(new T(v)) {}
  Tok(const Tok& o) : p(o.p ? new T(o.p->v) : nullptr) {}
  Tok(Tok&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  Tok& operator=(const Tok& o) {
    if (this != &o) {
      T* n = o.p ? new T(o.p->v) : nullptr;
      delete p;
      p = n;
    }
    return *this;
  }
  Tok& operator=(Tok&& o) noexcept {
    if (this != &o) {
      delete p;
      p = std::exchange(o.p, nullptr);
    }
    return *this;
  }
  ~Tok() { delete p; }
};
// The same for a type that can only be copied: moving one copies it.
struct TokC {
  Tok t;
  TokC() = default;
  explicit TokC(int v) : t(v) {}
  TokC(const TokC& o) : t(o.t) {}
  TokC& operator=(const TokC& o) {
    t = o.t;
    return *this;
  }
};
template <>
struct VT<TokC> {
  static constexpr const char* name = "tokc";
  static constexpr bool tokens = true, maker = false;
  static constexpr int maxv = 60000;
  static TokC make(int v) { return v == 1 ? TokC() : TokC(v); }
  static int get(const TokC& x) {
    if (!x.t.p) return 1;
    return x.t.p->v > 1 && x.t.p->v < BAD ? x.t.p->v : BAD;
  }
};
template <>
struct VT<Tok> {
  static constexpr const char* name = "tok";
  static constexpr bool tokens = true, maker = false;
  static constexpr int maxv = 60000;
  static Tok make(int v) { return v == 1 ? Tok() : Tok(v); }
  static int get(const Tok& x) {
    if (!x.p) return 1;
    return x.p->v > 1 && x.p->v < BAD ? x.p->v : BAD;
  }
};

// Objects that register themselves: constructing on top of a live object or
// destroying one that is not there is recorded at once, and objects left in a
// block of memory can be counted.
struct Registry {
  static inline std::set<const void*> at;
  static void add(const void* p) {
    if (!at.insert(p).second) LOG.ev("ok", 0, 0, "constructed twice");
  }
  static void del(const void* p) {
    if (at.erase(p) == 0) LOG.ev("ok", 0, 0, "destroyed twice");
  }
  static int within(const void* p, std::size_t bytes) {
    auto a = at.lower_bound(p), b = at.lower_bound(static_cast<const char*>(p) + bytes);
    return static_cast<int>(std::distance(a, b));
  }
};
struct RegObj {
  int v = 0;
  RegObj() { Registry::add(this); }
  explicit RegObj(int x) : v(x) { Registry::add(this); }
  RegObj(const RegObj& o) : v(o.v) { Registry::add(this); }
  RegObj& operator=(const RegObj& o) = default;
  ~RegObj() { Registry::del(this); }
};
template <>
struct VT<RegObj> {
  static constexpr const char* name = "reg";
  static constexpr bool tokens = false, maker = false;
  static constexpr int maxv = 60000;
  static RegObj make(int v) { return RegObj(v - 1); }
  static int get(const RegObj& x) { return x.v >= 0 && x.v < BAD ? x.v + 1 : BAD; }
};

// A value whose default construction can fail too; it registers itself, and
// moving it cannot fail.
struct RegF {
  int v = 0;
  RegF() {
    Fault::point();
    Registry::add(this);
  }
  explicit RegF(int x) : v(x) {
    Fault::point();
    Registry::add(this);
  }
  RegF(const RegF& o) : v(o.v) {
    Fault::point();
    Registry::add(this);
  }
  RegF(RegF&& o) noexcept : v(o.v) { Registry::add(this); }
  RegF& operator=(const RegF& o) {
    Fault::point();
    v = o.v;
    return *this;
  }
  RegF& operator=(RegF&& o) noexcept {
    v = o.v;
    return *this;
  }
  ~RegF() { Registry::del(this); }
};
template <>
struct VT<RegF> {
  static constexpr const char* name = "regf";
  static constexpr bool tokens = false, maker = false;
  static constexpr int maxv = 60000;
  static RegF make(int v) { return RegF(v - 1); }
  static int get(const RegF& x) { return x.v >= 0 && x.v < BAD ? x.v + 1 : BAD; }
};

// ----------------------------------------------------- guarded memory (C22)
// Memory whose pages can be made read-only. A store into it is counted, the
// page opened, and the store repeated.
struct Guard {
  static inline std::map<char*, std::size_t> areas;
  static inline volatile long writes = 0;
  static constexpr std::size_t PAGE = 4096;
  static void* take(std::size_t bytes) {
    bytes = (bytes + PAGE - 1) / PAGE * PAGE;
    void* p = ::mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    areas[static_cast<char*>(p)] = bytes;
    return p;
  }
  static void give(void* p) {
    auto it = areas.find(static_cast<char*>(p));
    if (it == areas.end()) Log::fatal("guard: unknown block");
    ::munmap(p, it->second);
    areas.erase(it);
  }
  static void protect(bool on) {
    for (auto& [p, n] : areas) ::mprotect(p, n, on ? PROT_READ : PROT_READ | PROT_WRITE);
  }
  static void fault(int, siginfo_t* i, void*) {
    char* a = static_cast<char*>(i->si_addr);
    auto it = areas.upper_bound(a);
    if (it != areas.begin() && (--it, a < it->first + it->second)) {
      writes = writes + 1;
      ::mprotect(it->first, it->second, PROT_READ | PROT_WRITE);
      return;
    }
    ::signal(SIGSEGV, SIG_DFL);
  }
  static void install() {
    struct sigaction s = {};
    s.sa_sigaction = fault;
    s.sa_flags = SA_SIGINFO;
    ::sigaction(SIGSEGV, &s, nullptr);
  }
  static inline std::atomic<long> races = 0;  // reports of the thread sanitizer
};
// A container object in guarded memory
template <class T>
struct Guarded : T {
  using T::T;
  static void* operator new(std::size_t n) { return Guard::take(n); }
  static void* operator new(std::size_t n, std::align_val_t) { return Guard::take(n); }
  static void operator delete(void* p) { Guard::give(p); }
  static void operator delete(void* p, std::align_val_t) { Guard::give(p); }
};

// --------------------------------------------------------------------- keys
// A key universe: tab[1..U] in the order of the comparator. Several concrete
// keys (representatives 0..R-1) may be equivalent.
template <class K>
std::vector<K> numeric_table(int U) {
  std::vector<K> v;
  if constexpr (std::is_floating_point_v<K>) {
    using L = std::numeric_limits<K>;
    v = {L::lowest(), -L::max() / 2, K(-1), -L::min(), -L::denorm_min(), K(0),
         L::denorm_min(), L::min(), K(1), L::max() / 2, L::max(), K(0.5), K(-0.5),
         L::infinity(), -L::infinity()};
    Rng r(77);
    while (static_cast<int>(v.size()) < 3 * U + 20) {
      K x = static_cast<K>(static_cast<std::int64_t>(r.next()) >> r.below(60));
      v.push_back(r.chance(1, 3) ? x / K(1024) : x);
    }
  } else {
    using L = std::numeric_limits<K>;
    if (sizeof(K) == 1) {
      for (int i = 0; i < 256; ++i)
        v.push_back(static_cast<K>(static_cast<unsigned char>(i)));
    } else {
      K mid = static_cast<K>(K(1) << (sizeof(K) * 8 - 2));
      for (K c : {L::min(), L::max(), K(0), mid, static_cast<K>(std::is_signed_v<K> ? 2 : mid + (mid - 1))})
        for (int d = -3; d <= 3; ++d)
          v.push_back(static_cast<K>(static_cast<std::uint64_t>(c) + static_cast<std::uint64_t>(static_cast<std::int64_t>(d))));
      if (sizeof(K) == 8)
        for (int d = -2; d <= 2; ++d) {  // around 2^31, 2^32
          v.push_back(static_cast<K>((1ULL << 32) + static_cast<std::uint64_t>(static_cast<std::int64_t>(d))));
          v.push_back(static_cast<K>((1ULL << 31) + static_cast<std::uint64_t>(static_cast<std::int64_t>(d))));
          v.push_back(static_cast<K>(0ULL - (1ULL << 32) + static_cast<std::uint64_t>(static_cast<std::int64_t>(d))));
        }
      Rng r(77);
      for (int i = 0; i < 8 * U + 200 || (i < 400000 && static_cast<int>(std::set<K>(v.begin(), v.end()).size()) < U); ++i) {
        K x = static_cast<K>(r.next() >> r.below(static_cast<int>(sizeof(K) * 8)) );
        v.push_back(x);
        if (r.chance(1, 2)) v.push_back(static_cast<K>(x + 1));
      }
    }
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (static_cast<int>(v.size()) < U) Log::fatal("key universe too small");
  // drop surplus elements from random places, but keep the extremes
  Rng r(99);
  while (static_cast<int>(v.size()) > U) {
    int i = r.in(1, static_cast<int>(v.size()) - 2);
    v.erase(v.begin() + i);
  }
  return v;
}

// Key models: type K, key(rank, rep), rank(key), rep(key), reps
template <class T, class Cmp>
struct NumKeys {
  using K = T;
  using C = Cmp;
  static constexpr int reps = std::is_floating_point_v<T> ? 2 : 1;
  static inline std::vector<K> tab;
  static void init(int U) {
    tab = numeric_table<K>(U);
    if (Cmp()(K(1), K(0))) std::reverse(tab.begin(), tab.end());
    tab.insert(tab.begin(), K());
  }
  static K key(int r, int rep) {
    K k = tab[static_cast<std::size_t>(r)];
    if constexpr (std::is_floating_point_v<T>)
      if (k == 0 && rep == 1) k = -K(0);  // the other zero
    return k;
  }
  static int rank(const K& k) {
    auto it = std::lower_bound(tab.begin() + 1, tab.end(), k, Cmp());
    if (it == tab.end() || *it != k) return -1;
    return static_cast<int>(it - tab.begin());
  }
  static int rep(const K& k) {
    if constexpr (std::is_floating_point_v<T>) return k == 0 && std::signbit(k) ? 1 : 0;
    return 0;
  }
};
// Plain small consecutive integers (maximal density, for node-shape driving)
template <class T, class Cmp>
struct SeqKeys {
  using K = T;
  using C = Cmp;
  static constexpr int reps = 1;
  static inline int N = 0;
  static void init(int U) { N = U; }
  static bool desc() { return Cmp()(T(1), T(0)); }
  static K key(int r, int) { return static_cast<K>(desc() ? N + 1 - r : r); }
  static int rank(const K& k) {
    long long x = static_cast<long long>(k);
    int r = static_cast<int>(desc() ? N + 1 - x : x);
    return r >= 1 && r <= N ? r : -1;
  }
  static int rep(const K&) { return 0; }
};
struct StrKeys {
  using K = std::string;
  using C = std::less<std::string>;
  static constexpr int reps = 1;
  static inline int N = 0;
  static void init(int U) { N = U; }
  static K key(int r, int) {
    char b[16];
    std::snprintf(b, sizeof b, "k%05d", r);
    std::string s = b;
    if (r % 2 == 0) s += "-a longer key beyond the small-string buffer";
    return s;
  }
  static int rank(const K& k) {
    int r = k.size() > 1 && k[0] == 'k' ? std::atoi(k.c_str() + 1) : -1;
    return r >= 1 && r <= N && key(r, 0) == k ? r : -1;
  }
  static int rep(const K&) { return 0; }
};
// Equivalence classes: case-insensitive strings
struct CiLess {
  bool operator()(const std::string& a, const std::string& b) const {
    return ::strcasecmp(a.c_str(), b.c_str()) < 0;
  }
};
struct CiKeys {
  using K = std::string;
  using C = CiLess;
  static constexpr int reps = 3;
  static inline int N = 0;
  static void init(int U) { N = U; }
  static K key(int r, int rep) {
    char b[16];
    std::snprintf(b, sizeof b, "%cey%05d%c", rep & 1 ? 'K' : 'k', r, rep & 2 ? 'X' : 'x');
    return b;
  }
  static int rank(const K& k) {
    int r = k.size() > 4 ? std::atoi(k.c_str() + 3) : -1;
    return r >= 1 && r <= N ? r : -1;
  }
  static int rep(const K& k) {
    return (k[0] == 'K' ? 1 : 0) + (k.back() == 'X' ? 2 : 0);
  }
};
// Equivalence classes: integers ordered by their tens
struct TensLess {
  bool operator()(int a, int b) const { return a / 10 < b / 10; }
};
struct TensGreater {
  bool operator()(int a, int b) const { return a / 10 > b / 10; }
};
template <class Cmp>
struct TensKeys {
  using K = int;
  using C = Cmp;
  static constexpr int reps = 10;
  static inline int N = 0;
  static void init(int U) { N = U; }
  static bool desc() { return Cmp()(10, 0); }
  static K key(int r, int rep) { return (desc() ? N + 1 - r : r) * 10 + rep; }
  static int rank(const K& k) {
    int x = k / 10, r = desc() ? N + 1 - x : x;
    return k > 0 && r >= 1 && r <= N ? r : -1;
  }
  static int rep(const K& k) { return k % 10; }
};
// Registered keys under a comparator that counts its calls
struct RegLess {
  static inline long calls = 0;
  bool operator()(const RegObj& a, const RegObj& b) const {
    ++calls;
    return a.v < b.v;
  }
};
struct RegKeys {
  using K = RegObj;
  using C = RegLess;
  static constexpr int reps = 1;
  static inline int N = 0;
  static void init(int U) { N = U; }
  static K key(int r, int) { return K(r); }
  static int rank(const K& k) { return k.v >= 1 && k.v <= N ? k.v : -1; }
  static int rep(const K&) { return 0; }
};
// A key type with an order but no equality
struct NoEq {
  int hi = 0, lo = 0;
  bool operator==(const NoEq&) const = delete;
};
struct NoEqLess {
  bool operator()(const NoEq& a, const NoEq& b) const { return a.hi < b.hi; }
};
struct NoEqKeys {
  using K = NoEq;
  using C = NoEqLess;
  static constexpr int reps = 4;
  static inline int N = 0;
  static void init(int U) { N = U; }
  static K key(int r, int rep) { return {r * 3, rep}; }
  static int rank(const K& k) {
    return k.hi % 3 == 0 && k.hi / 3 >= 1 && k.hi / 3 <= N ? k.hi / 3 : -1;
  }
  static int rep(const K& k) { return k.lo; }
};
// A key type whose equality is not the comparator's equivalence, and whose
// order is descending on one field
struct Odd {
  int id = 0, tag = 0;
  bool operator==(const Odd& o) const { return tag == o.tag; }  // misleading
};
struct OddLess {
  bool operator()(const Odd& a, const Odd& b) const { return a.id > b.id; }
};
struct OddKeys {
  using K = Odd;
  using C = OddLess;
  static constexpr int reps = 3;
  static inline int N = 0;
  static void init(int U) { N = U; }
  static K key(int r, int rep) { return {N + 1 - r, rep}; }
  static int rank(const K& k) {
    int r = N + 1 - k.id;
    return r >= 1 && r <= N ? r : -1;
  }
  static int rep(const K& k) { return k.tag; }
};

inline long arg(int argc, char** argv, const char* name, long dflt) {
  for (int i = 1; i + 1 < argc; ++i)
    if (std::strcmp(argv[i], name) == 0) return std::atol(argv[i + 1]);
  return dflt;
}
inline const char* sarg(int argc, char** argv, const char* name, const char* dflt) {
  for (int i = 1; i + 1 < argc; ++i)
    if (std::strcmp(argv[i], name) == 0) return argv[i + 1];
  return dflt;
}

}  // namespace vh
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_on_report(void*) { ++vh::Guard::races; }
#endif
