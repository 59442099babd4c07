// BUILD: name=vectors san=asan define=VECTORS
// BUILD: name=sequences san=asan define=SEQUENCES
// BUILD: name=rasters san=asan define=RASTERS parts=3
// RULE: A case is (container, element type, size or shape, operand values, operator); the result and all the operands are
//   compared element by element with the scalar operator, including when the operand is the left container itself or any of its
//   elements. Byte types are driven on all the pairs of values. Non-trivial: more than one element. Distinct: by operator and values.
#include "litl.hpp"

#include "LitlContainer/Sequence.h"

using Litl::Raster;
using Litl::Sequence;
using Litl::Vector;

// ------------------------------------------------------------------ operators

template <typename C>
struct IsVector : std::false_type {};
template <typename T, Index N>
struct IsVector<Vector<T, N>> : std::true_type {};

template <typename C>
std::vector<typename C::value_type> valuesOf(const C& c) {
  return {c.begin(), c.end()};
}
template <typename T, Index N, typename H>
Vec shapeOf(const Raster<T, N, H>& raster) {
  return toVec(raster.shape());
}
template <typename C>
Vec shapeOf(const C& c) {
  return {long(c.size())};
}

/// Not a number if there is one
template <typename T>
std::enable_if_t<not vp::IsComplex<T>::value, T> special() {
  return std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : T(1);
}
template <typename T>
std::enable_if_t<vp::IsComplex<T>::value, T> special() {
  return {0, special<typename T::value_type>()};
}

template <typename C>
struct Tester {
  using T = typename C::value_type;
  using Values = std::vector<T>;
  std::function<C(const Values&)> make;
  vp::Rng& r;
  std::string name;
  Vec shape;

  template <typename R>
  void expect(const R& result, const Values& values, const char* key, const std::string& text) {
    const auto seen = valuesOf(result);
    mon().check(seen == values && shapeOf(result) == shape, key, [&] { return cat(text, ": ", vp::show(seen), " expected ", vp::show(values), " shape ", shapeOf(result)); });
  }

  static Values zip(const Values& a, const Values& b, const std::function<T(T, T)>& f) {
    Values out(a.size());
    for (std::size_t i = 0; i < a.size(); ++i) {
      out[i] = f(a[i], b[i]);
    }
    return out;
  }

  void begin(const std::string& op, const Values& a) {
    mon().begin(cat(name, " ", op, " on ", vp::show(a)), a.size() > 1);
  }

#define BINARY(op, inplace, vectorial, scalarLeft, a, b, s) \
  { \
    const std::function<T(T, T)> f = [](T x, T y) { return T(x op y); }; \
    begin(#op, a); \
    scalarForms(f, a, s, [](C& c, const T& v) -> C& { return c inplace v; }, [](const C& c, const T& v) { return c op v; }, #op); \
    for (std::size_t k : indices(a.size())) { \
      if (safe(#op, a[k])) { \
        auto c = make(a); \
        const Values e = zip(a, Values(a.size(), a[k]), f); \
        auto& out = (c inplace c[k]); \
        mon().check(&out == &c, "in-place-returns-left"); \
        expect(c, e, "alias-element", cat(#inplace, " element ", k)); \
        auto d = make(a); \
        expect(d op d[k], e, "alias-element", cat(#op, " element ", k)); \
        expect(d, a, "operand-modified", #op); \
      } \
    } \
    vectorial(op, inplace, f, a, b); \
    scalarLeft(op, f, a, s); \
  }
#define VECTORIAL(op, inplace, f, a, b) \
  vectorForms(f, a, b, [](C& c, const C& d) -> C& { return c inplace d; }, [](const C& c, const C& d) { return c op d; }, #op)
#define NOT_VECTORIAL(op, inplace, f, a, b)
#define LEFT(op, f, a, s) \
  { \
    const auto c = make(a); \
    const T v = s; \
    expect(v op c, zip(Values(a.size(), s), a, f), "scalar-left", cat(vp::show(s), #op)); \
    expect(c, a, "operand-modified", #op); \
    for (std::size_t k : indices(a.size())) { \
      expect(c[k] op c, zip(Values(a.size(), a[k]), a, f), "alias-element", cat("element ", k, #op)); \
    } \
    expect(c, a, "operand-modified", #op); \
  }
#define NOT_LEFT(op, f, a, s)

  std::vector<std::size_t> indices(std::size_t n) {
    return n == 1 ? std::vector<std::size_t> {0} : std::vector<std::size_t> {0, n - 1, std::size_t(r.range(0, n - 1))};
  }
  bool safe(const std::string& op, T v) {
    return (op != "/" && op != "%") || v != T(0);
  }

  template <typename FIn, typename FNew>
  void scalarForms(const std::function<T(T, T)>& f, const Values& a, T s, FIn&& inPlace, FNew&& newInstance, const char* op) {
    const Values e = zip(a, Values(a.size(), s), f);
    auto c = make(a);
    const auto* address = c.data();
    auto& out = inPlace(c, s);
    mon().check(&out == &c && c.data() == address, "in-place-returns-left");
    expect(c, e, "scalar-in-place", cat(op, "= ", vp::show(s)));
    const auto d = make(a);
    expect(newInstance(d, s), e, "scalar-new-instance", cat(op, " ", vp::show(s)));
    expect(d, a, "operand-modified", op);
  }

  template <typename FIn, typename FNew>
  void vectorForms(const std::function<T(T, T)>& f, const Values& a, const Values& b, FIn&& inPlace, FNew&& newInstance, const char* op) {
    const Values e = zip(a, b, f);
    auto c = make(a);
    const auto d = make(b);
    auto& out = inPlace(c, d);
    mon().check(&out == &c, "in-place-returns-left");
    expect(c, e, "vector-in-place", op);
    expect(d, b, "operand-modified", op);
    const auto g = make(a);
    const auto result = newInstance(g, d);
    expect(result, e, "vector-new-instance", op);
    mon().check(result.data() != g.data() && result.data() != d.data(), "new-instance-independent");
    expect(g, a, "operand-modified", op);
    expect(d, b, "operand-modified", op);
    bool ok = true;
    for (auto v : a) {
      ok &= safe(op, v);
    }
    if (ok) { // The operand is the container itself
      const Values self = zip(a, a, f);
      auto h = make(a);
      inPlace(h, h);
      expect(h, self, "alias-self", op);
      expect(newInstance(g, g), self, "alias-self", op);
      expect(g, a, "operand-modified", op);
    }
  }

  template <typename U = C>
  std::enable_if_t<not IsVector<U>::value> common(const Values& a, const Values& b, const Values& nz, T s, T ns) {
    BINARY(+, +=, VECTORIAL, LEFT, a, b, s)
    BINARY(-, -=, VECTORIAL, LEFT, a, b, s)
    BINARY(*, *=, VECTORIAL, LEFT, a, b, s)
    BINARY(/, /=, VECTORIAL, NOT_LEFT, a, nz, ns)
    signs(a);
  }
  template <typename U = C>
  std::enable_if_t<IsVector<U>::value> common(const Values& a, const Values& b, const Values& nz, T s, T ns) {
    BINARY(+, +=, VECTORIAL, LEFT, a, b, s)
    BINARY(-, -=, VECTORIAL, LEFT, a, b, s)
    BINARY(*, *=, NOT_VECTORIAL, LEFT, a, b, s)
    BINARY(/, /=, NOT_VECTORIAL, NOT_LEFT, a, nz, ns)
    signs(a);
  }

  void signs(const Values& a) {
    begin("signs", a);
    const auto c = make(a);
    const Values zero(a.size());
    expect(+c, a, "unary-plus", "+");
    expect(c, a, "operand-modified", "unary +");
    const Values neg = zip(a, zero, [](T x, T) { return T(-x); });
    expect(-c, neg, "unary-minus", "-");
    expect(c, a, "operand-modified", "unary -");
    mon().check((+c).data() != c.data() && (-c).data() != c.data(), "new-instance-independent");
    // Chains
    auto d = make(a);
    const T one(1);
    expect((d += one) -= d, zero, "chain", "(d += 1) -= d");
    expect(c + c - c, a, "chain", "c + c - c");
    const auto e = zip(a, zero, [](T x, T) { return T(T(x + x) - T(1)); });
    expect((c + c) - one, e, "chain", "(c + c) - 1");
    expect(c, a, "operand-modified", "chain");
    // Equality
    auto same = make(a);
    mon().check(c == same && same == c && not(c != same) && c == c, "equality");
    for (std::size_t k : indices(a.size())) {
      auto other = make(a);
      other[k] = T(other[k] + one);
      mon().check(not(c == other) && c != other && not(other == c) && other != c, "equality", [&] { return cat("element ", k); });
      // Zeros of both signs are equal, not-a-numbers are not even equal to themselves
      for (const T& e : {T(0), T(-T(0)), special<T>()}) {
        auto left = make(a), right = make(a);
        left[k] = T(0);
        right[k] = e;
        mon().check((left == right) == (e == T(0)) && (right != left) == (e != T(0)), "equality", [&] { return cat("element ", k, " special ", e); });
        left[k] = e;
        mon().check((left == right) == (e == e) && (left != right) == (e != e) && (right == right) == (e == e), "equality", [&] { return cat("element ", k, " special ", e); });
      }
    }
  }

  template <typename U = T>
  std::enable_if_t<vp::IsComplex<U>::value> steps(const Values&) {}
  template <typename U = T>
  std::enable_if_t<not vp::IsComplex<U>::value> steps(const Values& a) {
    begin("steps", a);
    const Values zero(a.size());
    const auto up = zip(a, zero, [](T x, T) { return T(x + 1); });
    const auto down = zip(a, zero, [](T x, T) { return T(x - 1); });
    auto c = make(a);
    auto& out = ++c;
    mon().check(&out == &c, "in-place-returns-left");
    expect(c, up, "pre-increment", "++");
    auto& out2 = --c;
    mon().check(&out2 == &c, "in-place-returns-left");
    expect(c, a, "pre-decrement", "--");
    expect(c++, a, "post-increment", "++");
    expect(c, up, "post-increment", "++");
    c = make(a);
    expect(c--, a, "post-decrement", "--");
    expect(c, down, "post-decrement", "--");
  }

  template <typename U = T>
  std::enable_if_t<not std::is_integral<U>::value> modulos(const Values&, const Values&, T) {}
  template <typename U = T>
  std::enable_if_t<std::is_integral<U>::value> modulos(const Values& a, const Values& nz, T ns) {
    BINARY(%, %=, VECTORIAL, NOT_LEFT, a, nz, ns)
  }

  void run(const Values& a, const Values& b) {
    const auto avoid0 = [](T x) { return x == T(0) ? T(3) : x; };
    Values nz = b;
    for (auto& x : nz) {
      x = avoid0(x);
    }
    const T s = r.chance(4) ? T(r.range(0, 2)) : b[r.range(0, b.size() - 1)];
    common(a, b, nz, s, avoid0(s));
    modulos(a, nz, avoid0(s));
    steps(a);
  }

  /// All pairs of byte values
  void pairs() {
    static_assert(sizeof(T) == 1 || not std::is_integral<T>::value, "Byte");
    Values a(65536), b(65536);
    for (int i = 0; i < 65536; ++i) {
      a[i] = T(i % 256);
      b[i] = T(i / 256);
    }
    run(a, b);
  }
};

template <typename T>
std::vector<T> operands(vp::Rng& r, std::size_t n) {
  const long hi = sizeof(T) == 1 ? 255 : r.chance(2) ? 9 : 30000;
  auto v = vp::smallValues<T>(r, n, sizeof(T) == 1 ? -128 : -hi, hi);
  if (not std::is_integral<T>::value && r.chance(2)) {
    for (auto& e : v) {
      e /= T(8);
    }
  }
  return v;
}

/// Shapes of identical size must not compare equal
template <typename T, Index N, typename H, typename FMake>
void shapesDiffer(FMake&& make, vp::Rng& r) {
  auto& m = mon();
  for (int k = 0; k < 10; ++k) {
    auto s = vp::shapeBiased(r, N == -1 ? r.range(2, 4) : N, vp::upTo(r, 60, 9000));
    auto t = s;
    std::reverse(t.begin(), t.end());
    const std::vector<T> v(vp::product(s), T(1));
    const Raster<T, N, H> a = make(s, v);
    const Raster<T, N, H> b = make(t, v);
    m.begin(cat("equality of shapes ", s, " and ", t), s != t);
    m.check((a == b) == (s == t) && (a != b) == (s != t), "equality-shape");
    const Litl::VecRaster<T, N> c(pos<N>(s), v);
    m.check(a == c && c == a && (b == c) == (s == t) && (c != b) == (s != t), "equality-across-holders");
    if (N == -1) {
      auto u = s;
      u.push_back(1);
      const Raster<T, N, H> d = make(u, v);
      m.check(not(a == d) && a != d, "equality-dimension");
    }
  }
}

template <typename C, typename FMake>
void test(const std::string& name, FMake&& make, int cases, const std::function<Vec(vp::Rng&)>& shaper) {
  using T = typename C::value_type;
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const auto shape = shaper(r);
    const auto n = vp::product(shape);
    Tester<C> tester {[&](const std::vector<T>& v) { return make(shape, v); }, r, cat(name, " ", vp::typeName<T>(), " ", shape), shape};
    tester.run(operands<T>(r, n), operands<T>(r, n));
  }
}

// ------------------------------------------------------------------ containers

#ifdef VECTORS

template <typename T, Index N>
void vectors(int cases) {
  using C = Vector<T, N>;
  test<C>(
      cat("Vector<", N, ">"),
      [](const Vec&, const std::vector<T>& v) { return C(v); },
      cases,
      [](vp::Rng& r) { return Vec {N == -1 ? r.range(1, 9) : N}; });
}

template <typename T>
void vectorsOf() {
  vectors<T, 1>(120);
  vectors<T, 2>(120);
  vectors<T, 3>(120);
  vectors<T, 5>(120);
  vectors<T, -1>(200);
}
SCENARIO(ints) { vectorsOf<int>(); }
SCENARIO(indices) { vectorsOf<long>(); }
SCENARIO(doubles) { vectorsOf<double>(); }
SCENARIO(bytes) { vectorsOf<unsigned char>(); }

#elif defined(SEQUENCES)

template <typename T>
void sequences(int cases) {
  test<Sequence<T>>(
      "Sequence<vector>",
      [](const Vec&, const std::vector<T>& v) { return Sequence<T>(v); },
      cases,
      [](vp::Rng& r) { return Vec {vp::sizeUpTo(r, 70, 70000)}; });
  using Val = Sequence<T, Litl::StdHolder<std::valarray<T>>>;
  test<Val>(
      "Sequence<valarray>",
      [](const Vec&, const std::vector<T>& v) { return Val(v); },
      cases,
      [](vp::Rng& r) { return Vec {vp::sizeUpTo(r, 70, 70000)}; });
  using Arr = Sequence<T, Litl::StdHolder<std::array<T, 7>>>;
  test<Arr>(
      "Sequence<array>",
      [](const Vec&, const std::vector<T>& v) { return Arr(v); },
      cases,
      [](vp::Rng&) { return Vec {7}; });
  using Ali = Sequence<T, Litl::AlignedBuffer<T>>;
  test<Ali>(
      "Sequence<aligned>",
      [](const Vec&, const std::vector<T>& v) { return Ali(v); },
      cases,
      [](vp::Rng& r) { return Vec {vp::sizeUpTo(r, 70, 70000)}; });
}
SCENARIO(ints) { sequences<int>(150); }
SCENARIO(shorts) { sequences<short>(150); }
SCENARIO(bytes) { sequences<signed char>(150); }
SCENARIO(floats) { sequences<float>(150); }
SCENARIO(complexes) { sequences<std::complex<double>>(150); }
template <typename T>
void pairs() {
  auto& r = mon().rng;
  Tester<Sequence<T>> tester {[](const std::vector<T>& v) { return Sequence<T>(v); }, r, cat("all pairs of ", vp::typeName<T>()), {65536}};
  tester.pairs();
}
SCENARIO(unsigned_pairs) { pairs<unsigned char>(); }
SCENARIO(signed_pairs) { pairs<signed char>(); }

#else

template <typename T, Index N, typename H>
void rasters(const std::string& name, int cases) {
  using C = Raster<T, N, H>;
  const auto make = [](const Vec& shape, const std::vector<T>& v) { return C(pos<N>(shape), v); };
  test<C>(cat(name, "<", N, ">"), make, cases, [](vp::Rng& r) { return vp::shapeBiased(r, vp::dimOf(N, r, 4), vp::upTo(r, 100)); });
  shapesDiffer<T, N, H>(make, mon().rng);
}
template <typename T, Index N>
void rastersOf(int cases) {
  rasters<T, N, Litl::StdHolder<std::vector<T>>>("VecRaster", cases);
  rasters<T, N, Litl::StdHolder<std::valarray<T>>>("ValRaster", cases);
  rasters<T, N, Litl::AlignedBuffer<T>>("AlignedRaster", cases);
}
constexpr Index N = PART == 2 ? -1 : PART == 1 ? 3 : 2;
SCENARIO(ints) { rastersOf<int, N>(100); }
SCENARIO(bytes) { rastersOf<unsigned char, N>(100); }
SCENARIO(doubles) { rastersOf<double, N>(100); }
SCENARIO(complexes) { rastersOf<std::complex<float>, N>(100); }

/// In-place operators on views modify the viewed data only, and the operand may be part of the view
template <typename T, typename View>
void inPlaceViews(const std::string& name, int cases) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < cases * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, vp::dimOf(N, r, 4), vp::upTo(r, 100));
    const long n = vp::product(shape);
    auto data = operands<T>(r, n + 2);
    auto other = operands<T>(r, n);
    for (auto& e : other) {
      e = e == T(0) ? T(5) : e;
    }
    const auto before = data;
    const auto otherBefore = other;
    m.begin(cat(name, " ", vp::typeName<T>(), shape, vp::show(data), vp::show(other)), n > 1);
    View view(pos<N>(shape), data.data() + 1);
    View rhs(pos<N>(shape), other.data());
    const auto expect = [&](const std::function<T(T, T)>& f, const std::function<T(long)>& right, const char* op) {
      bool ok = data.front() == before.front() && data.back() == before.back() && other == otherBefore;
      for (long i = 0; i < n; ++i) {
        ok &= data[i + 1] == f(before[i + 1], right(i));
      }
      m.check(ok, "view-in-place", [&] { return cat(op, vp::show(data)); });
      data = before;
      view = View(pos<N>(shape), data.data() + 1);
    };
    const T v(3);
    const long j = r.range(0, n - 1);
    const auto element = before[j + 1];
#define VIEW(op, inplace) \
  view inplace rhs; \
  expect([](T a, T b) { return T(a op b); }, [&](long i) { return other[i]; }, #inplace); \
  view inplace v; \
  expect([](T a, T b) { return T(a op b); }, [&](long) { return v; }, #inplace " scalar"); \
  if (element != T(0)) { \
    view inplace view[j]; \
    expect([](T a, T b) { return T(a op b); }, [&](long) { return element; }, #inplace " element"); \
  }
    VIEW(+, +=)
    VIEW(-, -=)
    VIEW(*, *=)
    VIEW(/, /=)
    ++view;
    expect([](T a, T) { return T(a + 1); }, [](long) { return T(0); }, "++");
    --view;
    expect([](T a, T) { return T(a - 1); }, [](long) { return T(0); }, "--");
    m.check(view == View(pos<N>(shape), data.data() + 1), "view-equality");
  }
}
SCENARIO(in_place_views) {
  inPlaceViews<int, Litl::PtrRaster<int, N>>("PtrRaster", 60);
  inPlaceViews<double, Litl::PtrRaster<double, N>>("PtrRaster", 60);
  inPlaceViews<int, Litl::AlignedRaster<int, N>>("AlignedRaster view", 60);
}

/// New-instance operators on views leave the viewed data unchanged
template <typename T, typename View>
void newInstanceViews(const std::string& name) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 10 * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, vp::dimOf(N, r, 4), vp::upTo(r, 50, 9000, 20));
    const long n = vp::product(shape);
    auto data = operands<T>(r, n);
    for (auto& e : data) {
      e = e == T(0) ? T(5) : e;
    }
    const auto before = data;
    m.begin(cat("new instances from ", name, " ", vp::typeName<T>(), shape, vp::show(data)), n > 1);
    const View view(pos<N>(shape), data.data());
    const Litl::VecRaster<T, N> copy(pos<N>(shape), before);
    const T s(3);
#define NEW_VIEW(expression, expected, op) \
  { \
    const auto out = expression; \
    const auto e = expected; \
    m.check(std::equal(e.begin(), e.end(), out.begin(), out.end()), "view-new-instance-value", [&] { return op; }); \
    const auto key = cat("view-operand-modified:", name, ":", op); \
    m.check(data == before, key.c_str()); \
    data = before; \
  }
    NEW_VIEW(view + view, copy + copy, "container + container")
    NEW_VIEW(view + s, copy + s, "container + scalar")
    NEW_VIEW(view - s, copy - s, "container - scalar")
    NEW_VIEW(s - view, s - copy, "scalar - container")
    NEW_VIEW(view * s, copy * s, "container * scalar")
    NEW_VIEW(view / s, copy / s, "container / scalar")
    NEW_VIEW(-view, -copy, "- container")
  }
}
SCENARIO(new_instance_views) {
  newInstanceViews<int, Litl::PtrRaster<int, N>>("PtrRaster");
  newInstanceViews<int, Litl::AlignedRaster<int, N>>("non-owning AlignedRaster");
}

#endif

VP_MAIN
