// BUILD: name=real san=asan define=REAL parts=3
// BUILD: name=other san=asan define=OTHER
// RULE: A case is (container, element type, operand values including signed zeros, infinities, NaNs, denormals and out-of-domain
//   ones, function): every element of the result is compared bit for bit with the standard function called in the harness.
//   generate() and apply() are driven with call-logging functions: the log must hold each index once, in order, with the elements of
//   that index. Non-trivial: more than one element. Distinct: by function and values.
#include "litl.hpp"

#include "LitlContainer/Sequence.h"

#include <list>

using Litl::Raster;
using Litl::Sequence;

template <typename T>
bool identical(T a, T b) {
  return (a != a && b != b) || (a == b && std::signbit(double(a)) == std::signbit(double(b)));
}
template <typename T>
bool identical(std::complex<T> a, std::complex<T> b) {
  return identical(a.real(), b.real()) && identical(a.imag(), b.imag());
}

template <typename C>
std::vector<typename C::value_type> valuesOf(const C& c) {
  return {c.begin(), c.end()};
}
template <typename T, Index N, typename H>
Vec shapeOf(const Raster<T, N, H>& raster) {
  return toVec(raster.shape());
}
template <typename C>
Vec shapeOf(const C& c) {
  return {long(c.size())};
}

template <typename C, typename T>
bool identicalTo(const C& c, const std::vector<T>& v) {
  bool out = c.size() == v.size();
  for (std::size_t i = 0; out && i < v.size(); ++i) {
    out &= identical(T(c[i]), v[i]);
  }
  return out;
}

template <typename T>
std::vector<T> specials(vp::Rng& r, std::size_t n) {
  using L = std::numeric_limits<T>;
  static const std::vector<T> edge {
      T(0), -T(0), T(1), T(-1), T(.5), T(-.5), T(1.5), T(2.5), T(-2.5), T(3), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::min(),
      L::denorm_min(), L::epsilon(), T(88), T(-88), T(710), T(1e10), T(-1e10), T(0.49999997), T(4503599627370497.5)};
  std::vector<T> v(n);
  for (auto& e : v) {
    switch (r.range(0, 4)) {
      case 0:
        e = r.pick(edge);
        break;
      case 1:
        e = T(r.real(-1, 1));
        break;
      case 2:
        e = T(r.real(-10, 10));
        break;
      case 3:
        e = T(r.range(-5, 5)) / 2;
        break;
      default:
        e = T(std::exp(r.real(-20, 20)) * (r.chance(2) ? 1 : -1));
    }
  }
  return v;
}

template <typename C>
struct Tester {
  using T = typename C::value_type;
  using Values = std::vector<T>;
  std::function<C(const Values&)> make;
  std::string name;
  Vec shape;

  void expect(const C& c, const Values& e, const std::string& key, const std::string& text) {
    ++mon().events[key];
    if (not identicalTo(c, e) || shapeOf(c) != shape) {
      mon().report(key, cat(text, ": ", vp::show(valuesOf(c)), " expected ", vp::show(e)));
    }
  }

  void begin(const char* f, const Values& a) {
    mon().begin(cat(name, " ", f, vp::show(a)), a.size() > 1);
  }

#define UNARY(f) \
  { \
    begin(#f, a); \
    Values e(a.size()); \
    std::transform(a.begin(), a.end(), e.begin(), [](T x) { return T(std::f(x)); }); \
    auto c = make(a); \
    auto& out = c.f(); \
    mon().check(&out == &c, "in-place-returns-this"); \
    expect(c, e, #f, "in-place"); \
    const auto d = make(a); \
    expect(f(d), e, #f, "new-instance"); \
    expect(d, a, "argument-modified", #f); \
    expect(f(make(a)), e, #f, "new-instance of temporary"); \
  }

#define BINARY(f) \
  { \
    begin(#f, a); \
    Values e(a.size()); \
    std::transform(a.begin(), a.end(), b.begin(), e.begin(), [](T x, T y) { return T(std::f(x, y)); }); \
    auto c = make(a); \
    const auto d = make(b); \
    const auto& out = c.f(d); \
    mon().check(&out == &c, "in-place-returns-this"); \
    expect(c, e, #f, "in-place container"); \
    expect(d, b, "argument-modified", #f); \
    c = make(a); \
    c.f(b); \
    expect(c, e, #f, "in-place vector"); \
    c = make(a); \
    c.f(std::list<T>(b.begin(), b.end())); \
    expect(c, e, #f, "in-place list"); \
    const auto g = make(a); \
    expect(Litl::f(g, d), e, #f, "new-instance container"); \
    expect(Litl::f(g, b), e, #f, "new-instance vector"); \
    expect(g, a, "argument-modified", #f); \
    expect(d, b, "argument-modified", #f); \
    std::transform(a.begin(), a.end(), e.begin(), [](T x) { return T(std::f(x, x)); }); \
    c = make(a); \
    c.f(c); \
    expect(c, e, #f, "in-place self"); \
    expect(Litl::f(g, g), e, #f, "new-instance self"); \
    expect(g, a, "argument-modified", #f); \
    SCALAR(f) \
  }

#define SCALAR(f) \
  { \
    const T s = b[0]; \
    Values h(a.size()); \
    std::transform(a.begin(), a.end(), h.begin(), [=](T x) { return T(std::f(x, s)); }); \
    auto k = make(a); \
    auto& res = k.f(s); \
    mon().check(&res == &k, "in-place-returns-this"); \
    expect(k, h, #f, "in-place scalar"); \
    const auto l = make(a); \
    expect(f(l, s), h, #f, "new-instance scalar"); \
    expect(l, a, "argument-modified", #f); \
    const T last = a.back(); \
    std::transform(a.begin(), a.end(), h.begin(), [=](T x) { return T(std::f(x, last)); }); \
    k = make(a); \
    k.f(k.back()); \
    expect(k, h, #f, "in-place own element"); \
    const T first = a.front(); \
    std::transform(a.begin(), a.end(), h.begin(), [=](T x) { return T(std::f(x, first)); }); \
    k = make(a); \
    k.f(k.front()); \
    expect(k, h, #f, "in-place own element"); \
    expect(f(l, l.front()), h, #f, "new-instance own element"); \
  }

  void orders(const Values& a, const Values& b) {
    BINARY(max)
    BINARY(min)
  }

  void all(const Values& a, const Values& b) {
    UNARY(abs)
    orders(a, b);
    BINARY(fdim)
    UNARY(ceil)
    UNARY(floor)
    BINARY(fmod)
    UNARY(trunc)
    UNARY(round)
    UNARY(cos)
    UNARY(sin)
    UNARY(tan)
    UNARY(acos)
    UNARY(asin)
    UNARY(atan)
    BINARY(atan2)
    UNARY(cosh)
    UNARY(sinh)
    UNARY(tanh)
    UNARY(acosh)
    UNARY(asinh)
    UNARY(atanh)
    UNARY(exp)
    UNARY(exp2)
    UNARY(expm1)
    UNARY(log)
    UNARY(log2)
    UNARY(log10)
    UNARY(logb)
    UNARY(ilogb)
    UNARY(log1p)
    BINARY(pow)
    UNARY(sqrt)
    UNARY(cbrt)
    BINARY(hypot)
    UNARY(erf)
    UNARY(erfc)
    UNARY(tgamma)
    UNARY(lgamma)
    extrema(a);
  }

  /// Integral elements in the domain of the functions
  void integral(const Values& a, const Values& b) {
    UNARY(abs)
    orders(a, b);
    BINARY(fdim)
    UNARY(ceil)
    UNARY(floor)
    BINARY(fmod)
    UNARY(trunc)
    UNARY(round)
    UNARY(cos)
    UNARY(sin)
    UNARY(atan)
    BINARY(atan2)
    UNARY(exp)
    UNARY(exp2)
    UNARY(log2)
    UNARY(log10)
    BINARY(pow)
    UNARY(sqrt)
    UNARY(cbrt)
    BINARY(hypot)
    UNARY(tgamma)
    extrema(a);
  }

  void complexes(const Values& a, const Values& b) {
    UNARY(cos)
    UNARY(sin)
    UNARY(tan)
    UNARY(acos)
    UNARY(asin)
    UNARY(atan)
    UNARY(cosh)
    UNARY(sinh)
    UNARY(tanh)
    UNARY(exp)
    UNARY(log)
    UNARY(log10)
    UNARY(sqrt)
    BINARY(pow)
  }

  void extrema(const Values& a) {
    const auto c = make(a);
    for (auto v : a) {
      if (v != v) {
        return;
      }
    }
    begin("extrema", a);
    const auto lo = *std::min_element(a.begin(), a.end());
    const auto hi = *std::max_element(a.begin(), a.end());
    mon().check(c.min() == lo && c.max() == hi && c.minmax().first == lo && c.minmax().second == hi, "extrema");
    expect(c, a, "argument-modified", "extrema");
  }

  /// Call logs
  void functions(const Values& a, const Values& b, const std::vector<int>& i) {
    auto& m = mon();
    begin("generate-apply", a);
    const auto n = a.size();
    std::vector<T> logA, logB;
    std::vector<int> logI;
    const auto results = b;
    std::size_t calls = 0;
    const auto reset = [&] {
      logA.clear();
      logB.clear();
      logI.clear();
      calls = 0;
    };
    auto c = make(a);
    const auto d = make(b);
    auto* out = &c.generate([&] {
      return results[calls++];
    });
    m.check(out == &c && calls == n, "generate-calls");
    expect(c, results, "generate", "no argument");
    reset();
    c = make(a);
    out = &c.generate(
        [&](const T& x) {
          logA.push_back(x);
          return results[calls++];
        },
        d);
    m.check(out == &c && calls == n && identicalTo(logA, b), "generate-calls");
    expect(c, results, "generate", "one argument");
    expect(d, b, "argument-modified", "generate");
    reset();
    c = make(a);
    c.generate(
        [&](int k, T x) {
          logI.push_back(k);
          logA.push_back(x);
          return results[calls++];
        },
        i,
        d);
    m.check(calls == n && identicalTo(logA, b) && logI == i, "generate-calls");
    expect(c, results, "generate", "two arguments");
    expect(d, b, "argument-modified", "generate");
    reset();
    c = make(a);
    const std::list<int> j(i.begin(), i.end());
    const auto f = [&](T x, int k, T y) {
      logA.push_back(x);
      logI.push_back(k);
      logB.push_back(y);
      return results[calls++];
    };
    c.generate(f, d, j, c); // The container itself is an argument
    m.check(calls == n && identicalTo(logA, b) && identicalTo(logB, a) && logI == i, "generate-calls");
    expect(c, results, "generate", "three arguments");
    reset();
    c = make(a);
    out = &c.apply([&](T x) {
      logA.push_back(x);
      return results[calls++];
    });
    m.check(out == &c && calls == n && identicalTo(logA, a), "apply-calls");
    expect(c, results, "apply", "no argument");
    reset();
    c = make(a);
    c.apply(
        [&](T x, const T& y) {
          logA.push_back(x);
          logB.push_back(y);
          return results[calls++];
        },
        d);
    m.check(calls == n && identicalTo(logA, a) && identicalTo(logB, b), "apply-calls");
    expect(c, results, "apply", "one argument");
    expect(d, b, "argument-modified", "apply");
    reset();
    c = make(a);
    c.apply(f, j, d);
    m.check(calls == n && identicalTo(logA, a) && identicalTo(logB, b) && logI == i, "apply-calls");
    expect(c, results, "apply", "two arguments");
    reset();
    c = make(a);
    c.apply(f, j, c);
    m.check(calls == n && identicalTo(logA, a) && identicalTo(logB, a), "apply-calls");
    expect(c, results, "apply", "self argument");
    // A function with a state, which is that of the caller
    struct Counter {
      const Values* results;
      std::size_t calls;
      T operator()() {
        return (*results)[calls++];
      }
      T operator()(const T& x) {
        state = x;
        return (*this)();
      }
      T operator()(const T&, const T& y) {
        state = y;
        return (*this)();
      }
      T state;
    };
    Values twice(results);
    twice.insert(twice.end(), a.begin(), a.end());
    twice.insert(twice.end(), b.begin(), b.end());
    twice.insert(twice.end(), a.begin(), a.end());
    Counter counter {&twice, 0, T(1)};
    c = make(a);
    c.generate(counter);
    m.check(counter.calls == n, "function-state", [&] { return cat("called ", counter.calls, " times, ", n, " elements"); });
    expect(c, results, "generate", "stateful");
    c.generate(counter, d);
    m.check(counter.calls == 2 * n && identical(counter.state, b.back()), "function-state", [&] { return cat("called ", counter.calls, " times, 2 * ", n, " elements"); });
    expect(c, a, "generate", "stateful, going on");
    c.apply(counter);
    m.check(counter.calls == 3 * n && identical(counter.state, a.back()), "function-state", [&] { return cat("called ", counter.calls, " times, 3 * ", n, " elements"); });
    expect(c, b, "apply", "stateful, going on");
    c.apply(counter, make(a));
    m.check(counter.calls == 4 * n && identical(counter.state, a.back()), "function-state", [&] { return cat("called ", counter.calls, " times, 4 * ", n, " elements"); });
    expect(c, a, "apply", "stateful, going on");
    c.generate(Counter {&results, 0, T(1)}); // Temporary
    expect(c, results, "generate", "stateful temporary");
    // A function pointer, and a function which throws half-way
    reset();
    c = make(a);
    const auto stop = n / 2;
    const auto thrown = vp::thrown([&] {
      c.generate([&] {
        if (calls == stop) {
          throw std::runtime_error("stop");
        }
        return results[calls++];
      });
    });
    Values half(results.begin(), results.begin() + stop);
    half.insert(half.end(), a.begin() + stop, a.end());
    m.check(thrown == "std::exception", "generate-throws");
    expect(c, half, "generate", "interrupted");
    m.count("calls logged", 10 * n);
  }
};

template <typename T>
std::vector<int> ints(vp::Rng& r, const std::vector<T>& v) {
  return vp::smallValues<int>(r, v.size());
}

template <typename C, typename F, typename V>
void test(const std::string& name, F&& make, V&& values, int cases, const std::function<Vec(vp::Rng&, long)>& shaper, int kind) {
  using T = typename C::value_type;
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const bool large = k % 30 == 29;
    const auto shape = shaper(r, large ? vp::sizeLarge(r, k % 60 == 59 ? 70000 : 2000) : 60);
    const auto n = vp::product(shape);
    Tester<C> tester {[&](const std::vector<T>& v) { return make(shape, v); }, cat(name, " ", vp::typeName<T>(), " ", shape), shape};
    const std::vector<T> a = values(r, n), b = values(r, n);
    run(tester, a, b, kind);
    tester.functions(a, b, ints(r, a));
  }
}

#ifdef REAL

template <typename C, typename V>
void run(Tester<C>& tester, const V& a, const V& b, int) {
  tester.all(a, b);
}

using Real = std::conditional_t<PART == 0, float, std::conditional_t<PART == 1, double, long double>>;

SCENARIO(sequences) {
  using C = Sequence<Real>;
  test<C>(
      "Sequence", [](const Vec&, const std::vector<Real>& v) { return C(v); }, specials<Real>, 180, [](vp::Rng& r, long max) { return Vec {max == 60 ? vp::sizeBiased(r, 60) : max}; }, 0);
}
SCENARIO(rasters) {
  using C = Litl::VecRaster<Real, 2>;
  test<C>(
      "VecRaster", [](const Vec& s, const std::vector<Real>& v) { return C(pos<2>(s), v); }, specials<Real>, 180,
      [](vp::Rng& r, long max) { return vp::shapeBiased(r, 2, max); }, 0);
}
SCENARIO(dynamic_rasters) {
  using C = Litl::AlignedRaster<Real, -1>;
  test<C>(
      "AlignedRaster", [](const Vec& s, const std::vector<Real>& v) { return C(pos<-1>(s), v); }, specials<Real>, 180,
      [](vp::Rng& r, long max) { return vp::shapeBiased(r, r.range(1, 4), max); }, 0);
}

/// Views: in-place functions modify the viewed data only; new-instance ones leave them unchanged
SCENARIO(views) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 60 * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, 3, k % 20 == 19 ? vp::sizeLarge(r, 70000) : 60);
    const auto n = vp::product(shape);
    auto data = specials<Real>(r, n + 2);
    const auto before = data;
    m.begin(cat("PtrRaster in-place functions ", vp::show(data)));
    Litl::PtrRaster<Real, 3> view(pos<3>(shape), data.data() + 1);
    view.abs().sqrt().pow(Real(3));
    auto e = before;
    for (long i = 1; i <= n; ++i) {
      e[i] = std::pow(std::sqrt(std::abs(e[i])), Real(3));
    }
    m.check(identicalTo(data, e), "view-in-place");
  }
}
SCENARIO(new_instance_views) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 20 * m.scale; ++k) {
    std::vector<Real> data = specials<Real>(r, 12);
    data[0] = Real(2.5);
    const auto before = data;
    m.begin(cat("PtrRaster new-instance functions ", vp::show(data)));
    const Litl::PtrRaster<Real, 2> view({4, 3}, data.data());
    const Litl::AlignedRaster<Real, 2> aligned({4, 3}, data.data());
#define NEW_VIEW(view, expression, name) \
  { \
    const auto out = expression; \
    std::vector<Real> e = before; \
    for (auto& x : e) { \
      const auto view = x; \
      using std::cos; \
      using std::exp; \
      using std::pow; \
      x = expression; \
    } \
    m.check(identicalTo(out, e), "view-new-instance"); \
    m.check(identicalTo(data, before), "view-argument-modified:" name); \
    data = before; \
  }
    NEW_VIEW(view, exp(view), "PtrRaster:exp")
    NEW_VIEW(view, cos(view), "PtrRaster:cos")
    NEW_VIEW(view, pow(view, Real(2)), "PtrRaster:pow")
    NEW_VIEW(aligned, exp(aligned), "non-owning AlignedRaster:exp")
    NEW_VIEW(aligned, cos(aligned), "non-owning AlignedRaster:cos")
    NEW_VIEW(aligned, pow(aligned, Real(2)), "non-owning AlignedRaster:pow")
  }
}

/// Scalar operands of another type
SCENARIO(mixed_scalars) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 300 * m.scale; ++k) {
    const auto a = specials<Real>(r, k % 100 == 99 ? vp::sizeLarge(r, 70000) : vp::sizeBiased(r, 40));
    const int s = r.range(-4, 4);
    const double d = r.real(-3, 3);
    m.begin(cat("mixed scalars ", s, " ", d, vp::show(a)), a.size() > 1);
    const Sequence<Real> c(a);
#define MIXED(f, s) \
  { \
    auto e = a; \
    for (auto& x : e) { \
      x = std::f(x, s); \
    } \
    m.check(identicalTo(f(c, s), e), "mixed-scalar", [&] { return #f; }); \
    auto g = c; \
    g.f(s); \
    m.check(identicalTo(g, e), "mixed-scalar", [&] { return #f; }); \
  }
    MIXED(pow, s)
    MIXED(pow, d)
    MIXED(fmod, (s == 0 ? 1 : s))
    MIXED(atan2, d)
    MIXED(hypot, d)
    MIXED(fdim, s)
  }
}

/// Compositions are those of the elements
SCENARIO(compositions) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 300 * m.scale; ++k) {
    const auto a = specials<Real>(r, k % 100 == 99 ? vp::sizeLarge(r, 70000) : vp::sizeBiased(r, 40)), b = specials<Real>(r, a.size());
    m.begin(cat("compositions ", vp::show(a)), a.size() > 1);
    const Sequence<Real> x(a), y(b);
    std::vector<Real> e(a.size());
    for (std::size_t i = 0; i < e.size(); ++i) {
      e[i] = std::exp(std::min(std::max(a[i], b[i]), Real(3)));
    }
    m.check(identicalTo(exp(Litl::min(Litl::max(x, y), Real(3))), e), "composition");
    auto z = x;
    z.max(y);
    z.min(Real(3));
    m.check(identicalTo(z.exp(), e), "composition");
    m.check(identicalTo(x, a) && identicalTo(y, b), "argument-modified");
  }
}

template <typename T>
void checkPi(T tol) {
  mon().check(std::abs(Litl::pi<T>() - T(3.14159265358979323846264338327950288L)) <= tol, "pi");
}
SCENARIO(constant) {
  mon().begin("pi");
  checkPi<Real>(4 * std::numeric_limits<Real>::epsilon());
}

#else

template <typename T>
struct Run {
  template <typename C, typename V>
  static void go(Tester<C>& tester, const V& a, const V& b) {
    tester.integral(a, b);
  }
};
template <typename T>
struct Run<std::complex<T>> {
  template <typename C, typename V>
  static void go(Tester<C>& tester, const V& a, const V& b) {
    tester.complexes(a, b);
  }
};
template <typename C, typename V>
void run(Tester<C>& tester, const V& a, const V& b, int) {
  Run<typename C::value_type>::go(tester, a, b);
}

/// In the domain of all the functions, with images which fit
template <typename T>
std::vector<T> positive(vp::Rng& r, std::size_t n) {
  return vp::smallValues<T>(r, n, 1, 4);
}
template <typename T>
void integers(int cases) {
  using C = Sequence<T>;
  test<C>(
      "Sequence", [](const Vec&, const std::vector<T>& v) { return C(v); }, positive<T>, cases, [](vp::Rng& r, long max) { return Vec {max == 60 ? vp::sizeBiased(r, 60) : max}; }, 0);
  using R = Litl::VecRaster<T, 3>;
  test<R>(
      "VecRaster", [](const Vec& s, const std::vector<T>& v) { return R(pos<3>(s), v); }, positive<T>, cases,
      [](vp::Rng& r, long max) { return vp::shapeBiased(r, 3, max); }, 0);
}
SCENARIO(ints) { integers<int>(100); }
SCENARIO(bytes) { integers<unsigned char>(100); }
SCENARIO(signed_orders) {
  auto& r = mon().rng;
  for (int k = 0; k < 100 * mon().scale; ++k) {
    const long n = vp::sizeBiased(r, 60);
    Tester<Sequence<int>> tester {[](const std::vector<int>& v) { return Sequence<int>(v); }, "Sequence of signed values", {n}};
    tester.orders(vp::smallValues<int>(r, n, -1000000, 1000000), vp::smallValues<int>(r, n, -1000000, 1000000));
  }
}

template <typename T>
std::vector<std::complex<T>> complexValues(vp::Rng& r, std::size_t n) {
  std::vector<std::complex<T>> v(n);
  for (auto& e : v) {
    e = {T(r.range(-8, 8)) / 4, T(r.range(-8, 8)) / 4};
    if (e == std::complex<T>(0)) {
      e = {T(1), T(2)};
    }
  }
  return v;
}

template <typename T, Index N, typename H>
void complexToReal(const std::string& name, int cases) {
  using C = std::complex<T>;
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < cases * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, vp::dimOf(N, r), k % 20 == 19 ? vp::sizeLarge(r, 70000) : 80);
    auto v = complexValues<T>(r, vp::product(shape));
    if (r.chance(2)) {
      v[0] = C(T(-1), -T(0));
      v.back() = C(std::numeric_limits<T>::infinity(), T(1));
    }
    m.begin(cat(name, " complex to real ", vp::typeName<T>(), shape, vp::show(v)), v.size() > 1);
    const Raster<C, N, H> in(pos<N>(shape), v);
#define TO_REAL(f) \
  { \
    const auto out = f(in); \
    m.check(toVec(out.shape()) == shape, #f, [&] { return cat("shape ", toVec(out.shape())); }); \
    std::vector<T> e(v.size()); \
    std::transform(v.begin(), v.end(), e.begin(), [](C c) { return std::f(c); }); \
    m.check(identicalTo(out, e), #f, [&] { return cat(vp::show(valuesOf(out)), " expected ", vp::show(e)); }); \
    m.check(identicalTo(in, v), "argument-modified", [&] { return #f; }); \
  }
    TO_REAL(real)
    TO_REAL(imag)
    TO_REAL(abs)
    TO_REAL(arg)
    TO_REAL(norm)
  }
}

template <typename T>
void complexes(int cases) {
  using C = std::complex<T>;
  using S = Sequence<C>;
  test<S>(
      "Sequence", [](const Vec&, const std::vector<C>& v) { return S(v); }, complexValues<T>, cases, [](vp::Rng& r, long max) { return Vec {max == 60 ? vp::sizeBiased(r, 60) : max}; }, 0);
  complexToReal<T, 2, Litl::StdHolder<std::vector<C>>>("VecRaster", cases);
  complexToReal<T, 3, Litl::AlignedBuffer<C>>("AlignedRaster", cases);
  complexToReal<T, -1, Litl::StdHolder<std::vector<C>>>("VecRaster", cases);
  complexToReal<T, 1, Litl::StdHolder<std::valarray<C>>>("ValRaster", cases);
}
SCENARIO(complex_floats) { complexes<float>(100); }
SCENARIO(complex_doubles) { complexes<double>(100); }

#endif

VP_MAIN
