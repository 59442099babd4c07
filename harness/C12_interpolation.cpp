// BUILD: name=fixed san=asan parts=4
// BUILD: name=dynamic san=asan define=DYNAMIC
// RULE: A case is a raster (type, holder, boundary-biased shape, random values) with an extrapolation and an interpolation method.
//   It is read through the extrapolator at every position of a box around the domain and at far positions, and through the
//   interpolator (chained or not) at random real positions: integral, close to integral, half-way, negative, out of the domain.
//   Values are compared with the definition in extended precision. Non-trivial: size > 1. Distinct: by raster and methods.
#include "litl.hpp"

#include "LitlTransforms/Interpolation.h"

using namespace Litl;

#ifdef DYNAMIC
constexpr Index N = -1;
#else
constexpr Index N = PART + 1;
#endif

using Real = std::vector<double>;

template <typename T>
using Wide = decltype(vp::wide(T()));

/// The reference extrapolation
template <typename T>
struct Model {
  std::vector<T> values;
  Vec shape;
  int method = 0; ///< 0: constant, 1: nearest, 2: periodic
  T constant {};

  bool contains(const Vec& p) const {
    for (std::size_t i = 0; i < p.size(); ++i) {
      if (p[i] < 0 || p[i] >= shape[i]) {
        return false;
      }
    }
    return true;
  }

  T at(Vec p) const {
    if (not contains(p) && method == 0) {
      return constant;
    }
    for (std::size_t i = 0; i < p.size(); ++i) {
      if (method == 1) {
        p[i] = std::min(std::max(p[i], 0l), shape[i] - 1);
      } else {
        p[i] = ((p[i] % shape[i]) + shape[i]) % shape[i];
      }
    }
    return values[vp::refIndex(shape, p)];
  }

  /// Weighted sum of the neighbors, where weights are a function of the distance to the position
  template <typename F>
  Wide<T> weighted(const Real& x, int front, int back, F&& weight) const {
    const auto dim = x.size();
    Vec base(dim);
    std::vector<long double> d(dim);
    for (std::size_t i = 0; i < dim; ++i) {
      base[i] = long(std::floor(x[i]));
      d[i] = (long double)(x[i]) - base[i];
    }
    Wide<T> sum {};
    for (const auto& o : vp::positions(Vec(dim, front), Vec(dim, back))) {
      long double w = 1;
      Vec q(dim);
      for (std::size_t i = 0; i < dim; ++i) {
        w *= weight(o[i], d[i]);
        q[i] = base[i] + o[i];
      }
      if (w != 0) {
        sum += w * vp::wide(at(q));
      }
    }
    return sum;
  }

  Wide<T> linear(const Real& x) const {
    return weighted(x, 0, 1, [](long o, long double d) {
      return o ? d : 1 - d;
    });
  }

  /// Catmull-Rom
  Wide<T> cubic(const Real& x) const {
    return weighted(x, -1, 2, [](long o, long double d) -> long double {
      switch (o) {
        case -1:
          return (-d + 2 * d * d - d * d * d) / 2;
        case 0:
          return (2 - 5 * d * d + 3 * d * d * d) / 2;
        case 1:
          return (d + 4 * d * d - 3 * d * d * d) / 2;
        default:
          return (-d * d + d * d * d) / 2;
      }
    });
  }

  long double maxAbs() const {
    long double out = vp::mag(vp::wide(constant));
    for (const auto& e : values) {
      out = std::max(out, vp::mag(vp::wide(e)));
    }
    return out;
  }
};

/// A real coordinate between lo and hi (included)
static double coordinate(vp::Rng& r, double lo, double hi) {
  double x = r.real(lo, hi);
  switch (r.range(0, 7)) {
    case 0:
    case 1:
      x = std::floor(x);
      break;
    case 2:
      x = std::floor(x) + .5;
      break;
    case 3:
      x = std::floor(x) + r.pick<double>({1e-14, 1e-9, 1e-3, .25, .75, .999, 1 - 1e-9});
      break;
    case 4:
      x = r.chance(2) ? lo : hi;
      break;
  }
  return std::min(std::max(x, lo), hi);
}
static Real realPosition(vp::Rng& r, const Real& lo, const Real& hi) {
  Real x(lo.size());
  for (std::size_t i = 0; i < x.size(); ++i) {
    x[i] = coordinate(r, lo[i], hi[i]);
  }
  return x;
}

template <typename TIn>
double eps() {
  return std::numeric_limits<decltype(std::abs(typename TypeTraits<typename TIn::Value>::Floating()))>::epsilon();
}

static bool integral(const Real& x) {
  return std::all_of(x.begin(), x.end(), [](double e) {
    return e == std::floor(e);
  });
}

template <typename TInter, typename T>
void checkNearest(const TInter& inter, const Model<T>& model, const Real& lo, const Real& hi, const char* key) {
  auto& m = mon();
  using F = typename TInter::Floating;
  for (int k = 0; k < 12; ++k) {
    const auto x = realPosition(m.rng, lo, hi);
    const F out = inter(vec<N>(x));
    bool ok = false, tie = false;
    Vec a(x.size()), b(x.size());
    for (std::size_t i = 0; i < x.size(); ++i) {
      a[i] = b[i] = long(std::floor(x[i] + .5));
      if (std::fabs(x[i] - std::floor(x[i]) - .5) < 1e-12) { // Half-way: either neighbor
        tie = true;
        a[i] = long(std::floor(x[i]));
        b[i] = a[i] + 1;
      }
    }
    for (const auto& p : vp::positions(a, b)) {
      ok |= out == F(model.at(p));
    }
    m.count(tie ? "half-way positions" : "rounded positions");
    m.check(ok, key, [&] { return cat("at ", x, " got ", out); });
  }
}

template <typename TInter, typename T>
void checkSmooth(const TInter& inter, const Model<T>& model, const Real& lo, const Real& hi, bool cubic, const char* key) {
  auto& m = mon();
  using F = typename TInter::Floating;
  const auto tol = 100 * std::pow(3., double(lo.size())) * eps<TInter>() * model.maxAbs();
  for (int k = 0; k < (lo.size() > 2 ? 6 : 12); ++k) {
    const auto x = realPosition(m.rng, lo, hi);
    const F out = inter(vec<N>(x));
    const auto expected = cubic ? model.cubic(x) : model.linear(x);
    m.check(vp::near(out, expected, tol), key, [&] { return cat("at ", x, " got ", out, " expected ", expected); });
    if (integral(x)) {
      m.count("integral positions");
      Vec p(x.begin(), x.end());
      m.check(out == F(model.at(p)), key, [&] { return cat("integral ", x, " got ", out, " expected ", model.at(p)); }); // Exactly
    }
  }
}

template <typename TInter, typename TExtra, typename T>
void checkAccessors(const TInter& inter, const TExtra& extra, const Model<T>& model) {
  auto& m = mon();
  m.check(toVec(inter.shape()) == model.shape, "interpolator-shape");
  m.check(inter.domain().front() == extra.domain().front() && inter.domain().back() == extra.domain().back(), "interpolator-domain");
  m.check(&inter.raster() == &extra.raster(), "interpolator-raster");
  for (int k = 0; k < 4; ++k) {
    Vec p(model.shape.size());
    for (std::size_t i = 0; i < p.size(); ++i) {
      p[i] = m.rng.range(-model.shape[i] - 2, 2 * model.shape[i] + 2);
    }
    m.check(inter[pos<N>(p)] == model.at(p), "interpolator-subscript", [&] { return cat("at ", p); });
  }
}

template <typename T, typename = void>
struct Smooth { // Positions of Linear and Cubic are lists: fixed dimension only
  template <typename TRaster>
  static void chained(const TRaster&, const Model<T>&, const Real&, const Real&) {}
  template <typename TRaster>
  static void raw(const TRaster&, const Model<T>&) {}
};
#ifndef DYNAMIC
template <typename T>
struct Smooth<T, void> {
  template <typename TExtra>
  static void chained(const TExtra& extra, const Model<T>& model, const Real& lo, const Real& hi) {
    const auto linear = interpolate<Linear>(extra);
    checkSmooth(linear, model, lo, hi, false, "linear-chained");
    checkAccessors(linear, extra, model);
    cubicChained(extra, model, lo, hi, vp::IsComplex<T>());
  }
  template <typename TExtra>
  static void cubicChained(const TExtra&, const Model<T>&, const Real&, const Real&, std::true_type) {} // Cubic is real only
  template <typename TExtra>
  static void cubicChained(const TExtra& extra, const Model<T>& model, const Real& lo, const Real& hi, std::false_type) {
    const auto cubic = interpolate<Cubic>(extra);
    checkSmooth(cubic, model, lo, hi, true, "cubic-chained");
    checkAccessors(cubic, extra, model);
  }
  template <typename TRaster>
  static void cubicRaw(const TRaster&, const Model<T>&, const Real&, const Real&, std::true_type) {}
  template <typename TRaster>
  static void cubicRaw(const TRaster& raster, const Model<T>& model, const Real& lo, const Real& hi, std::false_type) {
    checkSmooth(interpolate<Cubic>(raster), model, lo, hi, true, "cubic");
  }
  template <typename TRaster>
  static void raw(const TRaster& raster, const Model<T>& model) {
    Real lo(model.shape.size(), 0), hi(model.shape.size());
    bool linear = true, cubic = true;
    for (std::size_t i = 0; i < hi.size(); ++i) {
      hi[i] = std::nextafter(double(model.shape[i] - 1), 0); // Neighbors up to floor + 1
      linear &= model.shape[i] >= 2;
      cubic &= model.shape[i] >= 4;
    }
    if (linear) {
      const auto inter = interpolate<Linear>(raster);
      checkSmooth(inter, model, lo, hi, false, "linear");
      mon().check(&inter.raster() == &raster, "interpolator-raster");
    }
    if (cubic) { // Neighbors from floor - 1 to floor + 2
      for (std::size_t i = 0; i < hi.size(); ++i) {
        lo[i] = 1;
        hi[i] = std::nextafter(double(model.shape[i] - 2), 0);
      }
      cubicRaw(raster, model, lo, hi, vp::IsComplex<T>());
    }
  }
};
#endif

template <typename TExtra, typename T>
void chain(const TExtra& extra, const Model<T>& model, const Vec& lo, const Vec& hi) {
  Real rlo(lo.begin(), lo.end()), rhi(hi.begin(), hi.end());
  const auto nearest = interpolate<NearestNeighbor>(extra);
  checkNearest(nearest, model, rlo, rhi, "nearest-chained");
  checkAccessors(nearest, extra, model);
  checkNearest(interpolate(extra), model, rlo, rhi, "nearest-default");
  Smooth<T>::chained(extra, model, rlo, rhi);
  if (mon().rng.chance(2)) { // Far away, where the coordinates still have a few fractional bits
    for (std::size_t i = 0; i < rlo.size(); ++i) {
      if (mon().rng.chance(2)) {
        rlo[i] += double(mon().rng.range(-1, 1) * (1l << mon().rng.range(10, 45)));
        rhi[i] = rlo[i] + 7;
      }
    }
    mon().count("far neighborhoods");
    checkNearest(nearest, model, rlo, rhi, "nearest-chained");
    Smooth<T>::chained(extra, model, rlo, rhi);
  }
}

template <typename TExtra, typename TRaster, typename T>
void checkExtrapolator(const TExtra& extra, const TRaster& raster, const Model<T>& model, const char* key) {
  auto& m = mon();
  auto& r = m.rng;
  const auto dim = model.shape.size();
  m.check(toVec(extra.shape()) == model.shape && &extra.raster() == &raster && &rasterize(extra) == &raster, key);
  m.check(toVec(extra.domain().front()) == Vec(dim, 0) && toVec(extra.domain().back()) == vp::minus1(model.shape), key);
  // Box around the domain
  Vec lo(dim), hi(dim);
  const long cap = dim < 3 ? 12 : dim == 3 ? 4 : 2;
  for (std::size_t i = 0; i < dim; ++i) {
    lo[i] = -std::min(cap, 2 * model.shape[i] + 1);
    hi[i] = std::min(model.shape[i] + cap, 3 * model.shape[i]);
    if (hi[i] - lo[i] > 40) { // Keep an end only
      if (r.chance(2)) {
        hi[i] = lo[i] + 15;
      } else {
        lo[i] = hi[i] - 15;
      }
    }
  }
  long in = 0, out = 0;
  for (const auto& p : vp::positions(lo, hi)) {
    const auto e = extra[pos<N>(p)];
    (model.contains(p) ? in : out)++;
    m.check(e == model.at(p), key, [&] { return cat("at ", p, " got ", e, " expected ", model.at(p)); });
  }
  m.count("positions in the domain", in);
  m.count("positions out of the domain", out);
  // Far
  for (int k = 0; k < 10; ++k) {
    Vec p(dim);
    for (std::size_t i = 0; i < dim; ++i) {
      const long far = 1l << r.range(2, 40);
      p[i] = r.chance(3) ? r.range(0, model.shape[i] - 1) : r.range(-far, far);
    }
    m.check(extra[pos<N>(p)] == model.at(p), key, [&] { return cat("at ", p); });
  }
  chain(extra, model, lo, hi);
}

template <typename T, typename THolder>
void constantOf(const Raster<T, N, THolder>& raster, const Model<T>& model) {
  checkExtrapolator(extrapolate(raster, model.constant), raster, model, "constant");
}
template <typename T, typename THolder>
void constantOf(const Raster<const T, N, THolder>& raster, const Model<T>& model) {
  checkExtrapolator(extrapolate<OutOfBoundsConstant<const T>>(raster, model.constant), raster, model, "constant");
}

template <typename TRaster, typename T>
void withoutExtrapolation(const TRaster& raster, const Model<T>& model) {
  Real lo(model.shape.size()), hi(model.shape.size());
  for (std::size_t i = 0; i < lo.size(); ++i) {
    lo[i] = -.499;
    hi[i] = model.shape[i] - .501;
  }
  checkNearest(interpolate(raster), model, lo, hi, "nearest-raw");
  checkNearest(interpolate<NearestNeighbor>(raster), model, lo, hi, "nearest-raw");
  Smooth<T>::raw(raster, model);
}

template <typename T, typename TRaster>
void examine(const TRaster& raster, Model<T>& model) {
  auto& r = mon().rng;
  auto& m = mon();
  const auto before = model.values;
  model.method = 0;
  model.constant = vp::smallValue<T>(r, -99, 99);
  constantOf(raster, model);
  checkExtrapolator(extrapolate<OutOfBoundsConstant<T>>(raster, model.constant), raster, model, "constant-method");
  model.constant = T {};
  checkExtrapolator(extrapolate<OutOfBoundsConstant<T>>(raster), raster, model, "constant-default");
  model.method = 1;
  checkExtrapolator(extrapolate<NearestNeighbor>(raster), raster, model, "nearest");
  checkExtrapolator(extrapolate(raster), raster, model, "nearest-default-method");
  model.method = 2;
  checkExtrapolator(extrapolate<Periodic>(raster), raster, model, "periodic");
  checkExtrapolator(Extrapolator<TRaster, Periodic>(raster), raster, model, "periodic-constructor");
  withoutExtrapolation(raster, model);
  m.check(std::equal(raster.begin(), raster.end(), before.begin(), before.end()), "input-unchanged");
}

/// Values up to some magnitude, using all the bits of the type
template <typename T>
std::enable_if_t<std::is_integral<T>::value> magnify(vp::Rng& r, std::vector<T>& values) {
  const T max = std::min<long double>(std::numeric_limits<T>::max(), r.pick<long>({30000, 1l << 30, 1l << 52}));
  for (auto& e : values) {
    e = T(r.range(std::is_unsigned<T>::value ? 0 : -long(max), long(max)));
  }
}
template <typename T>
std::enable_if_t<not std::is_integral<T>::value> magnify(vp::Rng& r, std::vector<T>& values) {
  using S = decltype(std::abs(T()));
  S factor = S(std::pow(10, r.real(-9, 9)));
  const bool mixed = r.chance(2);
  for (auto& e : values) {
    if (mixed) { // Large and small pixels side by side
      factor = S(std::pow(10, r.range(-9, 9)));
    }
    e *= factor;
    e += factor * S(r.unit());
  }
}

template <typename T>
void cases() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < (N == 1 || N == -1 ? 24 : N == 2 ? 16 : N == 3 ? 10 : 5) * m.scale; ++k) {
    const int dim = vp::dimOf(N, r, 3);
    Model<T> model;
    model.shape = vp::shapeBiased(r, dim, vp::upTo(r, r.pick<long>({1, 12, 60, 300, 1000}), 20000, 20));
    model.values = vp::smallValues<T>(r, vp::product(model.shape), -99, 99);
    if (r.chance(3)) {
      magnify(r, model.values);
    }
    const int holder = r.range(0, 3);
    m.begin(cat(vp::typeName<T>(), " holder ", holder, " shape ", model.shape, " values ", model.values), model.values.size() > 1);
    switch (holder) {
      case 0:
        examine(Raster<T, N>(pos<N>(model.shape), model.values), model);
        break;
      case 1: { // Exactly sized heap block, so that any overflow is seen
        std::unique_ptr<T[]> block(new T[model.values.size()]);
        std::copy(model.values.begin(), model.values.end(), block.get());
        examine(PtrRaster<T, N>(pos<N>(model.shape), block.get()), model);
        break;
      }
      case 2: {
        std::unique_ptr<T[]> block(new T[model.values.size()]);
        std::copy(model.values.begin(), model.values.end(), block.get());
        using U = std::conditional_t<vp::IsComplex<T>::value, T, const T>; // No floating type for constant complexes
        examine(PtrRaster<U, N>(pos<N>(model.shape), block.get()), model);
        break;
      }
      default: {
        AlignedRaster<T, N> raster(pos<N>(model.shape));
        std::copy(model.values.begin(), model.values.end(), raster.begin());
        examine(raster, model);
      }
    }
  }
}

SCENARIO(chars) { cases<unsigned char>(); }
SCENARIO(shorts) { cases<short>(); }
SCENARIO(ints) { cases<int>(); }
SCENARIO(longs) { cases<long>(); }
SCENARIO(floats) { cases<float>(); }
SCENARIO(doubles) { cases<double>(); }
SCENARIO(complexes) { cases<std::complex<double>>(); }

VP_MAIN
