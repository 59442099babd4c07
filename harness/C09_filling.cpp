// BUILD: name=run san=asan
// RULE: A case is (container, element type, size, bounds or step, vector dimension, origin of the arguments: values, elements of the
//   container itself); each element is compared with the closed form (exactly for integers and for the bounds, up to rounding in between).
//   Non-trivial: more than one element. Distinct: by container, size and arguments.
#include "litl.hpp"

#include "LitlContainer/Sequence.h"

using Litl::Sequence;
using Litl::Vector;

template <typename T>
T number(vp::Rng& r, double lo, double hi) {
  if (std::is_unsigned<T>::value && lo < 0) {
    lo = 0;
  }
  return std::is_integral<T>::value ? T(std::floor(r.real(lo, hi))) : r.chance(2) ? T(std::floor(r.real(lo, hi))) : T(r.real(lo, hi));
}

/// One more addition, modulo the integral types
template <typename T>
std::enable_if_t<std::is_integral<T>::value, T> next(T v, T step) {
  return T(std::uint64_t(v) + std::uint64_t(step));
}
template <typename T>
std::enable_if_t<not std::is_integral<T>::value, T> next(T v, T step) {
  return v + step;
}

template <typename C, typename T>
void checkRange(const C& c, T min, T step, const char* key) {
  T v = min;
  for (std::size_t i = 0; i < c.size(); ++i, v = next<T>(v, step)) {
    if (not(c[i] == v)) {
      mon().report(key, cat("element ", i, " is ", vp::show(T(c[i])), " for min ", vp::show(min), " step ", vp::show(step)));
      break;
    }
  }
  mon().check(c.size() == 0 || c[0] == min, key);
  mon().count("range elements", c.size());
}

template <typename C, typename T>
void checkLinspace(const C& c, T a, T b, const char* key) {
  auto& m = mon();
  const long n = c.size();
  const auto text = [&] { return cat("from ", vp::show(a), " to ", vp::show(b), ": ", list(c)); };
  if (n == 0) {
    return;
  }
  m.check(c[n - 1] == b, key, text);
  m.check(n == 1 || c[0] == a, key, text);
  const long double span = (long double)b - (long double)a;
  bool ok = true;
  for (long i = 1; i + 1 < n; ++i) {
    const long double e = a + span * i / (n - 1);
    if (std::is_integral<T>::value) {
      if (std::fmod(std::fabs(span), n - 1) == 0) {
        ok &= c[i] == T(e);
      } else {
        ok &= a <= b ? c[i] >= c[i - 1] && c[i] <= b : c[i] <= c[i - 1] && c[i] >= b;
      }
    } else {
      ok &= std::fabs(c[i] - e) <= 8 * std::numeric_limits<T>::epsilon() * (std::fabs((long double)a) + std::fabs((long double)b));
    }
  }
  m.check(ok, key, text);
  m.count("linspace elements", n);
}

template <typename C, typename F>
void test(const std::string& name, F&& make, int cases) {
  using T = typename C::value_type;
  auto& r = mon().rng;
  auto& m = mon();
  const double hi = sizeof(T) == 1 ? 100 : 1000;
  for (int k = 0; k < cases * m.scale; ++k) {
    C c = make(r);
    const long n = c.size();
    m.begin(cat(name, " ", vp::typeName<T>(), " of ", n, " elements ", r.s), n > 1);
    const auto garbage = [&] {
      for (auto& e : c) {
        e = number<T>(r, -hi, hi);
      }
    };
    // fill
    const auto v = number<T>(r, -hi, hi);
    garbage();
    auto* out = &c.fill(v);
    m.check(out == &c && std::all_of(c.begin(), c.end(), [&](T e) { return e == v; }), "fill");
    if (n == 0) {
      c.range();
      c.linspace();
      continue;
    }
    garbage();
    const auto j = r.range(0, n - 1), i = r.range(0, n - 1);
    const T w = c[j];
    c.fill(c[j]);
    m.check(std::all_of(c.begin(), c.end(), [&](T e) { return e == w; }), "fill-own-element");
    // range
    out = &c.range();
    m.check(out == &c, "returns-this");
    checkRange<C, T>(c, T(0), T(1), "range-default");
    const auto min = number<T>(r, -hi, hi), step = number<T>(r, -hi / 10, hi / 10);
    garbage();
    c.range(min);
    checkRange<C, T>(c, min, T(1), "range-min");
    garbage();
    out = &c.range(min, step);
    m.check(out == &c, "returns-this");
    checkRange<C, T>(c, min, step, "range");
    garbage();
    const T a = c[i], b = c[j];
    c.range(c[i], c[j]);
    checkRange<C, T>(c, a, b, "range-own-elements");
    garbage();
    const T a0 = c.front(), b0 = c.back();
    c.range(c.front(), c.back());
    checkRange<C, T>(c, a0, b0, "range-own-elements");
    // linspace
    out = &c.linspace();
    m.check(out == &c, "returns-this");
    checkLinspace<C, T>(c, T(0), T(1), "linspace-default");
    auto lo = number<T>(r, -hi, hi), up = number<T>(r, -hi, hi);
    if (std::is_integral<T>::value && n > 1 && r.chance(2)) { // Exact divisions
      const long q = (sizeof(T) == 1 ? 100 : 100000) / (n - 1);
      const long s = r.range(std::is_unsigned<T>::value ? 0 : -q, q); // Zero for many elements
      lo = s < 0 ? T(5) : T(lo > T(100) ? T(20) : lo);
      up = T(lo + s * (n - 1));
    }
    if (std::is_unsigned<T>::value && up < lo) {
      std::swap(lo, up);
    }
    garbage();
    c.linspace(lo, up);
    checkLinspace<C, T>(c, lo, up, "linspace");
    if (not std::is_unsigned<T>::value) {
      garbage();
      c.linspace(up, lo);
      checkLinspace<C, T>(c, up, lo, "linspace-reversed");
    }
    garbage();
    T a1 = c[i], b1 = c[j];
    if (not std::is_unsigned<T>::value || a1 <= b1) {
      c.linspace(c[i], c[j]);
      checkLinspace<C, T>(c, a1, b1, "linspace-own-elements");
    }
    garbage();
    a1 = c.front(), b1 = c.back();
    if (not std::is_unsigned<T>::value || b1 <= a1) {
      c.linspace(c.back(), c.front());
      checkLinspace<C, T>(c, b1, a1, "linspace-own-elements");
    }
  }
}

template <typename T>
void containers(int cases) {
  test<Sequence<T>>("Sequence", [](vp::Rng& r) { return Sequence<T>(r.chance(20) ? 0 : vp::sizeUpTo(r, 100, 140000, 60)); }, cases);
  using Val = Sequence<T, Litl::StdHolder<std::valarray<T>>>;
  test<Val>("Sequence<valarray>", [](vp::Rng& r) { return Val(vp::sizeUpTo(r, 100, 140000, 60)); }, cases);
  test<Litl::VecRaster<T, 2>>("VecRaster", [](vp::Rng& r) { return Litl::VecRaster<T, 2>(pos<2>(vp::shapeBiased(r, 2, vp::upTo(r, 200, 140000, 60)))); }, cases);
  test<Litl::AlignedRaster<T, 3>>("AlignedRaster", [](vp::Rng& r) { return Litl::AlignedRaster<T, 3>(pos<3>(vp::shapeBiased(r, 3, vp::upTo(r, 100, 140000, 60)))); }, cases);
  test<Litl::VecRaster<T, -1>>("VecRaster<-1>", [](vp::Rng& r) { return Litl::VecRaster<T, -1>(pos<-1>(vp::shapeBiased(r, r.range(1, 4), vp::upTo(r, 100, 140000, 60)))); }, cases);
  test<Vector<T, 1>>("Vector<1>", [](vp::Rng&) { return Vector<T, 1>(); }, cases);
  test<Vector<T, 4>>("Vector<4>", [](vp::Rng&) { return Vector<T, 4>(); }, cases);
  test<Vector<T, -1>>("Vector<-1>", [](vp::Rng& r) { return Vector<T, -1>(T(r.range(1, 9))); }, cases);
}
SCENARIO(ints) { containers<int>(250); }
SCENARIO(longs) { containers<long>(250); }
SCENARIO(shorts) { containers<short>(250); }
SCENARIO(bytes) { containers<unsigned char>(250); }
SCENARIO(floats) { containers<float>(250); }
SCENARIO(doubles) { containers<double>(250); }
SCENARIO(long_doubles) { containers<long double>(250); }

/// Views: nothing around is written
SCENARIO(views) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 500 * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, 2, vp::upTo(r, 100, 140000, 60));
    const auto n = vp::product(shape);
    auto data = vp::smallValues<double>(r, n + 2);
    const auto first = data.front(), last = data.back();
    m.begin(cat("PtrRaster ", vp::show(data)), n > 1);
    Litl::PtrRaster<double, 2> view(pos<2>(shape), data.data() + 1);
    view.range(3., .5);
    checkRange(view, 3., .5, "range");
    view.linspace(-1, 2);
    checkLinspace(view, -1., 2., "linspace");
    view.fill(4);
    m.check(std::all_of(view.begin(), view.end(), [](double e) { return e == 4; }), "fill");
    m.check(data.front() == first && data.back() == last, "around-views");
  }
}

// ------------------------------------------------------------------ vectors

template <typename T>
T infinity() {
  return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
}

template <typename V>
void checkIs(const V& v) {
  using T = typename V::Value;
  const auto all = [&](T e) { return std::all_of(v.begin(), v.end(), [&](T c) { return c == e; }); };
  mon().check(v.isZero() == all(T(0)), "is-zero", [&] { return list(v); });
  mon().check(v.isOne() == all(T(1)), "is-one", [&] { return list(v); });
  mon().check(v.isInf() == all(infinity<T>()), "is-inf", [&] { return list(v); });
}

template <typename T, Index N>
void vectors() {
  auto& r = mon().rng;
  auto& m = mon();
  using V = Vector<T, N>;
  const long dim = std::abs(N);
  m.begin(cat("predefined Vector<", vp::typeName<T>(), ",", N, ">"));
  const auto constant = [&](const V& v, T e) {
    return long(v.size()) == dim && std::all_of(v.begin(), v.end(), [&](T c) { return c == e; });
  };
  m.check(constant(V::zero(), T(0)), "zero", [&] { return list(V::zero()); });
  m.check(constant(V::one(), T(1)), "one", [&] { return list(V::one()); });
  m.check(constant(V::inf(), infinity<T>()), "inf", [&] { return list(V::inf()); });
  using L = std::numeric_limits<T>;
  std::vector<T> values {T(0), T(1), infinity<T>(), T(2), T(-1), T(L::lowest()), T(L::max())};
  // Others which look alike
  const std::vector<T> near = L::is_integer ?
      std::vector<T> {T(L::max() - 1), T(L::max() / 2), T(L::max() / 2 + 1), T(256), T(257), T(65537), T(4294967296.), T(4294967297.)} :
      std::vector<T> {T(1.5), T(.5), T(-.5), T(-0.), T(1) + L::epsilon(), T(1) - L::epsilon(), L::denorm_min(), -L::denorm_min(), L::min(), L::epsilon(), T(L::max() / 2), -L::infinity(), L::quiet_NaN(), T(1e30)};
  values.insert(values.end(), 4, T(1));
  values.insert(values.end(), near.begin(), near.end());
  for (int k = 0; k < 400 * m.scale; ++k) {
    const long n = N == -1 ? r.range(1, 6) : N;
    std::vector<T> e(n, r.pick(values));
    if (r.chance(4)) { // Different values
      for (auto& c : e) {
        c = r.pick(near);
      }
    } else if (r.chance(2)) {
      e[r.range(0, n - 1)] = r.pick(values); // All but at most one are the same
    } else if (r.chance(3)) {
      for (auto& c : e) {
        c = r.pick(values);
      }
    }
    m.begin(cat("predicates Vector<", vp::typeName<T>(), ",", N, ">", vp::show(e)));
    checkIs(V(e));
  }
}

template <typename T, Index N, Index M>
void slices(vp::Rng& r) {
  auto& m = mon();
  // From N to M <= N
  const auto e = vp::smallValues<T>(r, N, -99, 99);
  const Vector<T, N> v(e);
  const auto s = v.template slice<M>();
  static_assert(decltype(s)::Dimension == M, "Slice dimension");
  m.check(s.size() == M && std::equal(s.begin(), s.end(), e.begin()), "slice", [&] { return cat(vp::show(e), " to ", M, ": ", list(s)); });
  const Vector<T, -1> d(e);
  const auto ds = d.template slice<M>();
  m.check(ds.size() == M && std::equal(ds.begin(), ds.end(), e.begin()), "slice-dynamic", [&] { return cat(vp::show(e), " to ", M, ": ", list(ds)); });
  // From M to N
  const auto padding = vp::smallValues<T>(r, N, -99, 99);
  const auto x = s.template extend<N>(Vector<T, N>(padding));
  bool ok = x.size() == N, ok0 = true;
  const auto x0 = s.template extend<N>();
  const Vector<T, -1> t(std::vector<T>(e.begin(), e.begin() + M));
  const auto xd = t.template extend<N>(Vector<T, N>(padding));
  for (Index i = 0; i < N; ++i) {
    ok &= x[i] == (i < M ? e[i] : padding[i]) && xd[i] == x[i];
    ok0 &= x0[i] == (i < M ? e[i] : T(0));
  }
  m.check(ok, "extend", [&] { return cat(list(s), " with ", vp::show(padding), ": ", list(x), list(xd)); });
  m.check(ok0 && x0.size() == N, "extend-zeros", [&] { return cat(list(s), " to ", N, ": ", list(x0)); });
  m.check(std::equal(v.begin(), v.end(), e.begin()) && std::equal(d.begin(), d.end(), e.begin()), "source-unchanged");
}

template <typename T>
void vectorsOf() {
  vectors<T, 1>();
  vectors<T, 2>();
  vectors<T, 3>();
  vectors<T, 4>();
  vectors<T, 7>();
  vectors<T, -1>();
  auto& r = mon().rng;
  for (int k = 0; k < 200 * mon().scale; ++k) {
    mon().begin(cat("slices and extensions ", vp::typeName<T>(), " ", r.s));
    slices<T, 1, 1>(r);
    slices<T, 2, 1>(r);
    slices<T, 3, 1>(r);
    slices<T, 3, 2>(r);
    slices<T, 4, 3>(r);
    slices<T, 5, 2>(r);
    slices<T, 6, 6>(r);
  }
}
SCENARIO(index_vectors) { vectorsOf<long>(); }
SCENARIO(int_vectors) { vectorsOf<int>(); }
SCENARIO(double_vectors) { vectorsOf<double>(); }
SCENARIO(float_vectors) { vectorsOf<float>(); }
SCENARIO(byte_vectors) { vectorsOf<unsigned char>(); }

VP_MAIN
