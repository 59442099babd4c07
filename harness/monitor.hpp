/// Monitoring runtime shared by all the harnesses.
///
/// A harness is a set of scenarios (SCENARIO(name) {...}), each of which drives the library on cases drawn from a
/// seeded generator, while an oracle (reference model written in the harness) observes the results of each operation.
/// Each scenario runs in its own process (see ../run.py), so that a sanitizer abort in one does not mask the others.
///
/// Verdicts are non-fatal: `report(key, detail)` records a violation and the scenario goes on.
#ifndef VP_MONITOR_HPP
#define VP_MONITOR_HPP

// Standard headers which the library is entitled to need
#ifdef VP_THREADS
#include <atomic>
#include <thread>
#endif
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes(); // No sanitizer headers with this compiler
extern "C" void __asan_poison_memory_region(void const volatile*, std::size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, std::size_t);
#endif

namespace vp {

// ---------------------------------------------------------------- randomness

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

inline std::uint64_t hashStr(const std::string& s, std::uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ull;
  }
  return mix(h);
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(mix(seed)) {}
  std::uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    return mix(s);
  }
  /// Uniform in [a, b]
  long range(long a, long b) {
    return a + long(next() % std::uint64_t(b - a + 1));
  }
  bool chance(int oneIn) {
    return next() % oneIn == 0;
  }
  double unit() {
    return double(next() >> 11) / 9007199254740992.;
  }
  double real(double a, double b) {
    return a + (b - a) * unit();
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[next() % v.size()];
  }
};

// ---------------------------------------------------------------- monitor

struct Monitor {
  std::string scenario;
  std::uint64_t seed = 1;
  double scale = 1; ///< Multiplier of the number of cases: 1 for quick
  bool thorough = false;
  Rng rng;
  FILE* out = nullptr;
  char* current = nullptr; ///< Shared memory which survives a crash
  std::mutex mutex;
  std::map<std::string, long> failures;
  std::map<std::string, long> events;
  std::unordered_set<std::uint64_t> distinct;
  long evaluations = 0;
  long samples = 0;
  std::string caseText;

  /// Declare a new case: what is being run (kept for crashes and violations) and whether it is non trivial.
  void begin(const std::string& text, bool nontrivial = true) {
    caseText = text;
    ++evaluations;
    if (current) {
      const auto n = std::min<std::size_t>(text.size(), 4000);
      std::memcpy(current, text.data(), n);
      current[n] = 0;
    }
    if (nontrivial) {
      distinct.insert(hashStr(text));
    }
    if (samples < 3 && (evaluations == 1 || evaluations == 50 || evaluations == 500)) {
      sample(text);
    }
  }

  void sample(const std::string& text) {
    ++samples;
    std::fprintf(out, "SAMPLE\t%s\n", clean(text).c_str());
  }

  void count(const std::string& event, long n = 1) {
    events[event] += n;
  }

  void report(const std::string& key, const std::string& detail = "") {
    std::lock_guard<std::mutex> lock(mutex);
    if (failures[key]++ < 3) {
      std::fprintf(out, "FAIL\t%s\t%s | %s\n", clean(key).c_str(), clean(caseText).c_str(), clean(detail).c_str());
      std::fflush(out);
    }
  }

  void check(bool ok, const char* key) {
    ++events[key];
    if (!ok) {
      report(key);
    }
  }
  template <typename F>
  void check(bool ok, const char* key, F&& detail) {
    ++events[key];
    if (!ok) {
      report(key, detail());
    }
  }

  void finish() {
    for (const auto& e : events) {
      std::fprintf(out, "EVENT\t%s\t%ld\n", clean(e.first).c_str(), e.second);
    }
    for (const auto& f : failures) {
      std::fprintf(out, "FAILCOUNT\t%s\t%ld\n", clean(f.first).c_str(), f.second);
    }
    std::fprintf(out, "STAT\t%ld\t%zu\n", evaluations, distinct.size());
    std::fprintf(out, "DONE\n");
    std::fflush(out);
  }

  static std::string clean(std::string s) {
    for (auto& c : s) {
      if (c == '\n' || c == '\t' || c == '\r') {
        c = ' ';
      }
    }
    if (s.size() > 1500) {
      s.resize(1500);
    }
    return s;
  }
};

/// With VP_THREADS, each scenario is run by several threads, each of which has its own monitor
inline Monitor& mon() {
#ifdef VP_THREADS
  static thread_local Monitor m;
#else
  static Monitor m;
#endif
  return m;
}

struct Scenario {
  std::string name;
  void (*run)();
};
inline std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}
struct Register {
  Register(const char* name, void (*f)()) {
    scenarios().push_back({name, f});
  }
};

#define VP_CAT_(a, b) a##b
#define VP_CAT(a, b) VP_CAT_(a, b)
#define SCENARIO(id) \
  static void VP_CAT(scenario_, id)(); \
  static ::vp::Register VP_CAT(register_, id)(#id, VP_CAT(scenario_, id)); \
  static void VP_CAT(scenario_, id)()

// ---------------------------------------------------------------- text

inline std::string str() {
  return "";
}
template <typename T>
std::string show(const T& t) {
  std::ostringstream os;
  os << std::setprecision(20) << t;
  return os.str();
}
inline std::string show(char c) {
  return std::to_string(int(c));
}
inline std::string show(signed char c) {
  return std::to_string(int(c));
}
inline std::string show(unsigned char c) {
  return std::to_string(int(c));
}
template <typename T>
std::string show(const std::vector<T>& v) {
  std::string s = "(";
  for (std::size_t i = 0; i < v.size(); ++i) {
    s += (i ? "," : "") + show(T(v[i]));
    if (i > 40) {
      s += ",...";
      break;
    }
  }
  return s + ")";
}
/// Text of any iterable
template <typename T>
std::string list(const T& v) {
  std::string s = "(";
  std::size_t i = 0;
  for (const auto& e : v) {
    if (i > 40) {
      s += ",...";
      break;
    }
    s += (i++ ? "," : "") + show(e);
  }
  return s + ")";
}
template <typename T>
std::string cat(const T& t) {
  return show(t);
}
inline std::string cat(const char* t) {
  return t;
}
inline std::string cat(const std::string& t) {
  return t;
}
template <typename T, typename U, typename... Ts>
std::string cat(const T& t, const U& u, const Ts&... ts) {
  return cat(t) + cat(u, ts...);
}

template <typename T>
const char* typeName();
#define VP_TYPE(T) \
  template <> \
  inline const char* typeName<T>() { \
    return #T; \
  }
VP_TYPE(bool)
VP_TYPE(char)
VP_TYPE(signed char)
VP_TYPE(unsigned char)
VP_TYPE(short)
VP_TYPE(unsigned short)
VP_TYPE(int)
VP_TYPE(unsigned int)
VP_TYPE(long)
VP_TYPE(unsigned long)
VP_TYPE(long long)
VP_TYPE(unsigned long long)
VP_TYPE(float)
VP_TYPE(double)
VP_TYPE(long double)
VP_TYPE(std::complex<float>)
VP_TYPE(std::complex<double>)
VP_TYPE(std::complex<long double>)

// ---------------------------------------------------------------- values

template <typename T>
struct IsComplex : std::false_type {};
template <typename T>
struct IsComplex<std::complex<T>> : std::true_type {};

/// Small integral valued elements, exactly representable in any type, possibly negative.
template <typename T, typename = void>
struct Value {
  static T small(Rng& r, long lo, long hi) {
    if (std::is_unsigned<T>::value && lo < 0) {
      lo = 0;
    }
    return T(r.range(lo, hi));
  }
};
template <typename T>
struct Value<std::complex<T>> {
  static std::complex<T> small(Rng& r, long lo, long hi) {
    const auto re = T(r.range(lo, hi));
    const auto im = T(r.range(lo, hi));
    return {re, im};
  }
};
template <typename T>
T smallValue(Rng& r, long lo = -9, long hi = 9) {
  return Value<T>::small(r, lo, hi);
}
template <typename T>
std::vector<T> smallValues(Rng& r, std::size_t n, long lo = -9, long hi = 9) {
  std::vector<T> v(n);
  for (std::size_t i = 0; i < n; ++i) {
    v[i] = smallValue<T>(r, lo, hi);
  }
  return v;
}

inline long double mag(long double v) {
  return std::fabs(v);
}
template <typename T>
long double mag(const std::complex<T>& v) {
  return std::abs(std::complex<long double>(v));
}
template <typename T, std::enable_if_t<!IsComplex<T>::value>* = nullptr>
long double wide(const T& v) {
  return v;
}
template <typename T>
std::complex<long double> wide(const std::complex<T>& v) {
  return {v.real(), v.imag()};
}

/// |a - b| <= tol, NaN equal to NaN
template <typename A, typename B>
bool near(const A& a, const B& b, long double tol) {
  const auto d = mag(wide(a) - wide(b));
  return d <= tol || (a != a && b != b) || a == A(b);
}

// ---------------------------------------------------------------- shapes

/// Lengths biased towards boundaries (1, powers of two and their neighbors)
inline long sizeBiased(Rng& r, long max) {
  static const std::vector<long> edges {1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025};
  for (int i = 0; i < 50; ++i) {
    const long s = r.chance(2) ? r.range(1, max) : r.pick(edges);
    if (s <= max) {
      return s;
    }
  }
  return 1;
}

/// Lengths beyond the usual ones: around what a byte or a short can count, around round numbers, and in between
inline long sizeLarge(Rng& r, long max) {
  static const std::vector<long> edges {
      256, 257, 300, 500, 512, 768, 999, 1000, 1001, 1024, 1025, 1280, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8192, 8193, 10000, 10001,
      16384, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 65792, 66000, 99999, 100000, 100001, 131072, 131073, 200000};
  for (int i = 0; i < 50; ++i) {
    const long s = r.chance(3) ? r.range(257, std::max(257l, max)) : r.pick(edges);
    if (s <= max) {
      return s;
    }
  }
  return max;
}
/// A maximum, occasionally replaced with a large one
inline long upTo(Rng& r, long usual, long large = 20000, int oneIn = 50) {
  return r.chance(oneIn) ? sizeLarge(r, large) : usual;
}
/// A size, occasionally large
inline long sizeUpTo(Rng& r, long usual, long large = 20000, int oneIn = 50) {
  return r.chance(oneIn) ? sizeLarge(r, large) : sizeBiased(r, usual);
}
/// Seeds of random engines, except -1 which stands for the current time
inline std::size_t anySeed(Rng& r) {
  static const std::vector<std::size_t> edges {
      0, 1, 2, 3, 255, 256, 65535, 65536, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x100000001,
      0x1FFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFF00000000, 0xFFFFFFFFFFFFFFFE};
  return r.chance(2) ? r.pick(edges) : r.next() >> r.range(1, 60);
}

/// A shape of dimension dim with a total size at most maxSize
inline std::vector<long> shapeBiased(Rng& r, int dim, long maxSize) {
  std::vector<long> s(dim);
  long left = maxSize;
  std::vector<int> order(dim);
  std::iota(order.begin(), order.end(), 0);
  for (int i = dim - 1; i > 0; --i) {
    std::swap(order[i], order[r.range(0, i)]);
  }
  for (int k = 0; k < dim; ++k) {
    long cap = left;
    if (k < dim - 1) {
      cap = std::max(1l, long(std::pow(double(left), r.real(.15, .8))));
    }
    s[order[k]] = r.chance(8) ? 1 : sizeBiased(r, cap);
    left /= s[order[k]];
    left = std::max(left, 1l);
  }
  return s;
}
inline long product(const std::vector<long>& s) {
  long p = 1;
  for (auto l : s) {
    p *= l;
  }
  return p;
}

/// Reference row-major odometer
inline bool nextPos(std::vector<long>& p, const std::vector<long>& lo, const std::vector<long>& hi) {
  for (std::size_t i = 0; i < p.size(); ++i) {
    if (p[i] < hi[i]) {
      ++p[i];
      return true;
    }
    p[i] = lo[i];
  }
  return false;
}
/// All the positions between lo and hi, row-major
inline std::vector<std::vector<long>> positions(const std::vector<long>& lo, const std::vector<long>& hi) {
  std::vector<std::vector<long>> out;
  for (std::size_t i = 0; i < lo.size(); ++i) {
    if (hi[i] < lo[i]) {
      return out;
    }
  }
  auto p = lo;
  do {
    out.push_back(p);
  } while (nextPos(p, lo, hi));
  return out;
}
inline long refIndex(const std::vector<long>& shape, const std::vector<long>& p) {
  long stride = 1, index = 0;
  for (std::size_t i = 0; i < shape.size(); ++i) {
    index += p[i] * stride;
    stride *= shape[i];
  }
  return index;
}
inline std::vector<long> minus1(std::vector<long> s) {
  for (auto& l : s) {
    --l;
  }
  return s;
}

// ---------------------------------------------------------------- memory

/// Bytes currently allocated, or 0 without AddressSanitizer
inline std::size_t allocated() {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

/// Do something several times and report if it does not give back its memory.
/// The first call is a warm-up (lazy initializations).
template <typename F>
void checkNoLeak(const char* key, F&& f) {
#if defined(__SANITIZE_ADDRESS__)
  f();
  const auto before = allocated();
  f();
  const auto after = allocated();
  f();
  const auto last = allocated();
  ++mon().events[key];
  if (after > before && last > after) {
    mon().report(key, cat("allocated bytes: ", before, " then ", after, " then ", last));
  }
#else
  f();
  (void)key;
#endif
}

// ---------------------------------------------------------------- main

inline void guarded(const Scenario& s, Monitor& m) {
  try {
    s.run();
  } catch (const std::exception& e) {
    m.report("unexpected-exception:" + s.name, cat(typeid(e).name(), ": ", e.what()));
  } catch (...) {
    m.report("unexpected-exception:" + s.name, "unknown type");
  }
}

#ifdef VP_THREADS
/// Run the same scenario from several threads, each of them working on its own objects.
/// What fails there and not alone is reported; data races are reported by the thread sanitizer.
inline void concurrently(const Scenario& s, Monitor& m) {
  struct Thread {
    char* text = nullptr;
    std::size_t size = 0;
    std::map<std::string, long> failures, events;
    std::unordered_set<std::uint64_t> distinct;
    long evaluations = 0;
  };
  const auto work = [&](Thread& t, int i, char* current) {
    auto& own = mon();
    own.scenario = s.name;
    own.seed = m.seed;
    own.scale = m.scale;
    own.thorough = m.thorough;
    own.rng = Rng(hashStr(s.name, mix(m.seed + (i > 1 ? i : 0)))); // The first two do the same
    own.current = current;
    own.out = open_memstream(&t.text, &t.size);
    own.samples = i == 0 ? 0 : 3;
    guarded(s, own);
    std::fclose(own.out);
    t.failures = std::move(own.failures);
    t.events = std::move(own.events);
    t.distinct = std::move(own.distinct);
    t.evaluations = own.evaluations;
  };
  std::vector<Thread> threads(VP_THREADS);
  std::atomic<int> waiting {VP_THREADS};
  std::vector<std::thread> all;
  for (int i = 0; i < VP_THREADS; ++i) {
    all.emplace_back([&, i] {
      --waiting;
      while (waiting > 0) {
      }
      work(threads[i], i, i == 0 ? m.current : nullptr);
    });
  }
  for (auto& t : all) {
    t.join();
  }
  bool failed = false;
  for (auto& t : threads) {
    failed = failed || not t.failures.empty();
    for (const auto& e : t.events) {
      m.events[e.first] += e.second;
    }
    m.distinct.insert(t.distinct.begin(), t.distinct.end());
    m.evaluations += t.evaluations;
  }
  m.events["concurrent threads"] += VP_THREADS;
  for (std::size_t i = 0; i < threads.size(); ++i) {
    if (failed) { // Does it need concurrency?
      Thread alone;
      std::thread([&] { work(alone, i, nullptr); }).join();
      for (const auto& f : threads[i].failures) {
        if (alone.failures.count(f.first) == 0) {
          m.report("concurrent:" + f.first, threads[i].text);
        }
      }
      std::free(alone.text);
    }
    std::istringstream lines(threads[i].text ? threads[i].text : "");
    for (std::string line; std::getline(lines, line);) {
      if (line.compare(0, 6, "SAMPLE") == 0) {
        std::fprintf(m.out, "%s\n", line.c_str());
      }
    }
    std::free(threads[i].text);
  }
}
#endif

inline int run(int argc, char** argv) {
  std::string only, outPath, curPath;
  auto& m = mon();
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    const auto value = [&]() -> std::string {
      return i + 1 < argc ? argv[++i] : "";
    };
    if (a == "--list") {
      for (const auto& s : scenarios()) {
        std::cout << s.name << "\n";
      }
      return 0;
    } else if (a == "--scenario") {
      only = value();
    } else if (a == "--out") {
      outPath = value();
    } else if (a == "--seed") {
      m.seed = std::strtoull(value().c_str(), nullptr, 10);
    } else if (a == "--scale") {
      m.scale = std::atof(value().c_str());
      m.thorough = m.scale > 1;
    }
  }
  for (const auto& s : scenarios()) {
    if (s.name != only) {
      continue;
    }
    m.scenario = s.name;
    m.rng = Rng(hashStr(s.name, mix(m.seed)));
    m.out = outPath.empty() ? stdout : std::fopen(outPath.c_str(), "w");
    if (!m.out) {
      return 90;
    }
    if (!outPath.empty()) {
      curPath = outPath + ".current";
      const int fd = open(curPath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (fd >= 0 && ftruncate(fd, 4096) == 0) {
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        m.current = p == MAP_FAILED ? nullptr : static_cast<char*>(p);
      }
      close(fd);
    }
#ifdef VP_THREADS
    concurrently(s, m);
#else
    guarded(s, m);
#endif
    m.finish();
    if (m.out != stdout) {
      std::fclose(m.out);
    }
    return 0;
  }
  return 91;
}

} // namespace vp

#define VP_MAIN \
  int main(int argc, char** argv) { \
    return ::vp::run(argc, argv); \
  }

using vp::cat;
using vp::mon;

#endif
