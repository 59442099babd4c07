// BUILD: name=fixed san=asan parts=4
// BUILD: name=dynamic san=asan define=DYNAMIC
// RULE: A case is an input (type, exactly-sized block, boundary-biased shape; random, constant, few-valued, extreme values), a box or
//   ball window (any size and position), a processed region, and an extrapolation method or none (then the windows stay in the input).
//   Each output is compared with the sorted values of the translated window, and out of the region with its previous content; the
//   same filter object is used several times. Non-trivial: window size > 1. Distinct: by all of these.
#include "litl.hpp"

#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/StructuringElement.h"

#include "LitlRaster/Ball.h"

using namespace Litl;

#ifdef DYNAMIC
constexpr Index N = -1;
#else
constexpr Index N = PART + 1;
#endif

template <typename T>
struct Model {
  std::vector<T> in;
  Vec shape;
  int method; ///< 0: constant, 1: nearest, 2: periodic, 3: none
  T constant;
  std::vector<Vec> window; ///< Offsets

  T at(Vec p) const {
    bool inside = true;
    for (std::size_t i = 0; i < p.size(); ++i) {
      inside &= p[i] >= 0 && p[i] < shape[i];
    }
    if (not inside && method == 0) {
      return constant;
    }
    for (std::size_t i = 0; i < p.size(); ++i) {
      p[i] = method == 1 ? std::min(std::max(p[i], 0l), shape[i] - 1) : ((p[i] % shape[i]) + shape[i]) % shape[i];
    }
    return in[vp::refIndex(shape, p)];
  }

  std::vector<T> neighbors(const Vec& p) const {
    std::vector<T> out;
    auto r = p;
    for (const auto& q : window) {
      for (std::size_t i = 0; i < p.size(); ++i) {
        r[i] = p[i] + q[i];
      }
      out.push_back(at(r));
    }
    std::sort(out.begin(), out.end());
    return out;
  }
};

enum class Op { Median, Erode, Dilate };

template <typename TOut, typename T>
bool isMedian(TOut out, const std::vector<T>& sorted) {
  const auto n = sorted.size();
  if (n % 2 == 1) {
    return out == TOut(sorted[n / 2]);
  }
  const long double mean = ((long double)(sorted[n / 2 - 1]) + (long double)(sorted[n / 2])) / 2;
  if (std::is_integral<TOut>::value || std::is_integral<T>::value) { // Might be rounded
    const bool exact = not std::is_integral<TOut>::value && sizeof(T) < sizeof(long);
    return std::fabs(out - mean) <= (exact ? 0. : .5);
  }
  if (std::isinf(mean) || std::isnan(mean)) { // Infinite central values
    return std::isnan(mean) ? std::isnan(out) : out == mean;
  }
  return std::fabs(out - mean) <= 2 * std::numeric_limits<T>::epsilon() * std::fabs(mean);
}

template <typename TOut, typename T>
void examine(const TOut& out, const Model<T>& model, const Vec& lo, const Vec& hi, Op op, bool rounded, typename TOut::Value old, const char* key) {
  auto& m = mon();
  m.check(toVec(out.shape()) == model.shape, key, [&] { return cat("shape ", toVec(out.shape())); });
  if (toVec(out.shape()) != model.shape) {
    return;
  }
  std::size_t i = 0;
  for (const auto& p : vp::positions(Vec(model.shape.size(), 0), vp::minus1(model.shape))) {
    bool in = true;
    for (std::size_t d = 0; d < p.size(); ++d) {
      in &= p[d] >= lo[d] && p[d] <= hi[d];
    }
    const auto v = out[i++];
    if (not in) {
      m.check(v == old, "out-of-region", [&] { return cat(key, " modified ", p); });
      continue;
    }
    const auto sorted = model.neighbors(p);
    const auto text = [&] { return cat("at ", p, " got ", v, " from ", sorted); };
    if (op == Op::Median) {
      m.check(rounded ? isMedian(T(v), sorted) : isMedian(v, sorted), key, text);
    } else {
      m.check(v == typename TOut::Value(op == Op::Erode ? sorted.front() : sorted.back()), key, text);
    }
  }
}

template <typename T>
T value(vp::Rng& r, int kind) {
  using L = std::numeric_limits<T>;
  switch (kind) {
    case 0:
      return vp::smallValue<T>(r, 0, 2);
    case 1:
      return vp::smallValue<T>(r, -99, 99);
    case 2: { // Extreme
      if (L::has_infinity && r.chance(2)) {
        return r.chance(3) ? -L::infinity() : L::infinity();
      }
      const double top = sizeof(T) == sizeof(long) ? 1e15 : double(L::max());
      const double bottom = sizeof(T) == sizeof(long) ? (L::is_signed ? -1e15 : 0) : double(L::lowest());
      return r.chance(3) ? T(top) : r.chance(2) ? T(bottom) : T(top / 2);
    }
    default:
      return std::is_integral<T>::value ? vp::smallValue<T>(r, 100, 120) : T(vp::smallValue<T>(r, -999, 999) / T(7));
  }
}

/// Run the filter with one method over a random region
template <typename T, typename TElement, typename TIn>
void morphology(TElement& element, const TIn& in, const Model<T>& model, const Vec& lo, const Vec& hi, bool whole) {
  auto& r = mon().rng;
  using Rst = Raster<T, N>;
  const auto region = vp::box<N>(lo, hi);
  const T old = value<T>(r, 1);
  std::vector<int> order {0, 1, 2, 3};
  for (int i = 3; i > 0; --i) {
    std::swap(order[i], order[r.range(0, i)]);
  }
  for (auto o : order) {
    Rst out(pos<N>(model.shape));
    out.fill(old);
    AlignedRaster<double, N> other(pos<N>(model.shape));
    other.fill(-7);
    switch (o) {
      case 0:
        element.medianTo(in, out, region);
        examine(out, model, lo, hi, Op::Median, false, old, "element-median");
        element.medianTo(in, other, region);
        examine(other, model, lo, hi, Op::Median, true, -7, "element-median");
        if (whole) {
          examine(element.median(in), model, lo, hi, Op::Median, false, old, "element-median-new");
          out.fill(old);
          element.medianTo(in, out);
          examine(out, model, lo, hi, Op::Median, false, old, "element-median-default-region");
        }
        break;
      case 1:
        element.erodeTo(in, out, region);
        examine(out, model, lo, hi, Op::Erode, false, old, "erode");
        if (whole) {
          element.erodeTo(in, other);
          examine(other, model, lo, hi, Op::Erode, false, -7, "erode-default-region");
        }
        break;
      case 2:
        element.dilateTo(in, out, region);
        examine(out, model, lo, hi, Op::Dilate, false, old, "dilate");
        if (whole) {
          element.dilateTo(in, other);
          examine(other, model, lo, hi, Op::Dilate, false, -7, "dilate-default-region");
        }
        break;
      default: // An involution: the element is reused after a copy
        auto copy = element;
        copy.erodeTo(in, other, region);
        examine(other, model, lo, hi, Op::Erode, false, -7, "erode-copy");
    }
    mon().count("filterings");
  }
}

template <typename T, typename TIn>
void medianFilter(MedianFilter<T, N>& filter, const TIn& in, const Model<T>& model, const Vec& lo, const Vec& hi, bool whole) {
  auto& r = mon().rng;
  const T old = value<T>(r, 1);
  Raster<T, N> out(pos<N>(model.shape));
  out.fill(old);
  filter.applyTo(in, out, vp::box<N>(lo, hi));
  examine(out, model, lo, hi, Op::Median, false, old, "median");
  AlignedRaster<double, N> other(pos<N>(model.shape));
  other.fill(-7);
  filter.applyTo(in, other, vp::box<N>(lo, hi));
  examine(other, model, lo, hi, Op::Median, false, -7, "median");
  if (whole) {
    out.fill(old);
    filter.applyTo(in, out);
    examine(out, model, lo, hi, Op::Median, false, old, "median-default-region");
    examine(filter.apply(in), model, lo, hi, Op::Median, false, old, "median-new");
  }
}

/// Call f with the input, or an extrapolator
template <typename T, typename TRaster, typename F>
void withMethod(const TRaster& raster, const Model<T>& model, F&& f) {
  switch (model.method) {
    case 0:
      f(extrapolate(raster, model.constant));
      break;
    case 1:
      f(extrapolate<NearestNeighbor>(raster));
      break;
    case 2:
      f(extrapolate<Periodic>(raster));
      break;
    default:
      f(raster);
  }
}

template <typename T, typename F>
void onInput(const Model<T>& model, F&& f) {
  std::unique_ptr<T[]> block(new T[model.in.size()]);
  std::copy(model.in.begin(), model.in.end(), block.get());
  const PtrRaster<T, N> raster(pos<N>(model.shape), block.get());
  withMethod(raster, model, f);
  mon().check(std::equal(model.in.begin(), model.in.end(), block.get()), "input-unchanged");
}

/// The same objects are applied to the same input, which changes in between
template <typename T, typename TElement>
void modified(MedianFilter<T, N>& filter, TElement& element, Model<T> model, const Vec& lo, const Vec& hi) {
  auto& r = mon().rng;
  std::unique_ptr<T[]> block(new T[model.in.size()]);
  std::copy(model.in.begin(), model.in.end(), block.get());
  const PtrRaster<T, N> raster(pos<N>(model.shape), block.get());
  withMethod(raster, model, [&](const auto& in) {
    for (int k = 0; k < 4; ++k) {
      const bool last = r.chance(2);
      const auto front = last ? hi : lo;
      const bool whole = front == Vec(hi.size(), 0) && hi == vp::minus1(model.shape);
      morphology(element, in, model, front, hi, whole);
      medianFilter(filter, in, model, front, hi, whole);
      for (std::size_t i = 0; i < model.in.size(); ++i) {
        if (r.chance(2)) {
          block[i] = model.in[i] = value<T>(r, k);
        }
      }
    }
  });
  mon().count("inputs modified in place");
}

template <Index P>
struct BallMaker {
  static bool contains(const Vec& q, const Vec& center, double radius) {
    double norm = 0;
    for (std::size_t i = 0; i < q.size(); ++i) {
      const double d = std::fabs(double(q[i] - center[i]));
      norm += P == 1 ? d : d * d;
    }
    return norm <= (P == 1 ? radius : radius * radius);
  }
};

template <typename T, Index P, std::enable_if_t<N == -1, T>* = nullptr>
void balls(Model<T>&, const std::string&) {}
template <typename T, Index P, std::enable_if_t<N != -1, T>* = nullptr>
void balls(Model<T>& model, const std::string& text) {
  auto& r = mon().rng;
  const double radius = r.pick<double>({0, .5, 1, 1.5, 2.25, N < 3 ? 3.3 : 1.7});
  Vec center(N), lo(N), hi(N);
  for (int i = 0; i < N; ++i) {
    center[i] = r.chance(2) ? 0 : r.range(-3, 3);
    lo[i] = center[i] - 4;
    hi[i] = center[i] + 4;
  }
  model.window.clear();
  for (const auto& q : vp::positions(lo, hi)) {
    if (BallMaker<P>::contains(q, center, radius)) {
      model.window.push_back(q);
    }
  }
  mon().begin(cat(text, " ball P=", P, " radius ", radius, " center ", center), model.window.size() > 1);
  StructuringElement<T, N, Ball<N, P>> element(Ball<N, P>(radius, pos<N>(center)));
  onInput(model, [&](const auto& in) {
    morphology(element, in, model, Vec(N, 0), vp::minus1(model.shape), true);
  });
}

template <typename T, std::enable_if_t<N == -1, T>* = nullptr>
void radii(Model<T>&, const std::string&) {}
template <typename T, std::enable_if_t<N != -1, T>* = nullptr>
void radii(Model<T>& model, const std::string& text) {
  auto& r = mon().rng;
  const long radius = r.range(0, N < 3 ? 3 : 1);
  model.window = vp::positions(Vec(N, -radius), Vec(N, radius));
  mon().begin(cat(text, " radius ", radius), model.window.size() > 1);
  auto filter = radius == 1 && r.chance(2) ? MedianFilter<T, N>() : MedianFilter<T, N>(radius);
  auto element = radius == 1 && r.chance(2) ? StructuringElement<T, N>() : StructuringElement<T, N>(radius);
  onInput(model, [&](const auto& in) {
    medianFilter(filter, in, model, Vec(N, 0), vp::minus1(model.shape), true);
    morphology(element, in, model, Vec(N, 0), vp::minus1(model.shape), true);
  });
}

template <typename T>
void cases() {
  auto& r = mon().rng;
  for (int k = 0; k < (N == 1 || N == -1 ? 60 : N == 2 ? 40 : N == 3 ? 20 : 10) * mon().scale; ++k) {
    const int dim = vp::dimOf(N, r, 3);
    Model<T> model;
    const bool manyNeighbors = r.chance(20), manyPixels = not manyNeighbors && r.chance(20);
    const auto wshape = vp::shapeBiased(r, dim, manyNeighbors ? vp::sizeLarge(r, 1100) : manyPixels ? r.range(1, 4) : r.pick<long>({1, 3, 9, 27}));
    model.shape = vp::shapeBiased(r, dim, manyPixels ? vp::sizeLarge(r, 5000) : manyNeighbors ? r.range(1, 12) : r.pick<long>({1, 9, 40, 150}));
    const int kind = r.range(0, 3);
    for (long i = 0; i < vp::product(model.shape); ++i) {
      model.in.push_back(value<T>(r, kind));
    }
    model.constant = value<T>(r, kind);
    model.method = r.range(0, 3);
    Vec wlo(dim), whi(dim), lo(dim, 0), hi = vp::minus1(model.shape);
    bool whole = r.chance(2);
    for (int i = 0; i < dim; ++i) {
      wlo[i] = r.chance(2) ? -(wshape[i] / 2) : r.range(-wshape[i] - 3, 3);
      whi[i] = wlo[i] + wshape[i] - 1;
      if (model.method == 3) { // Stay in the input
        lo[i] = std::max(0l, -wlo[i]);
        hi[i] = std::min(model.shape[i] - 1, model.shape[i] - 1 - whi[i]);
        whole = false;
      }
      if (not whole && lo[i] < hi[i]) {
        lo[i] = r.range(lo[i], hi[i]);
        hi[i] = r.range(lo[i], hi[i]);
      }
      if (lo[i] > hi[i]) { // The window does not fit
        model.method = 0;
        lo[i] = hi[i] = r.range(0, model.shape[i] - 1);
        whole = false;
      }
    }
    bool all = true;
    for (int i = 0; i < dim; ++i) {
      all &= lo[i] == 0 && hi[i] == model.shape[i] - 1;
    }
    whole = all;
    model.window = vp::positions(wlo, whi);
    const auto text = cat(vp::typeName<T>(), " shape ", model.shape, " method ", model.method, " constant ", model.constant, " values ", model.in);
    mon().begin(cat(text, " window ", wlo, whi, " region ", lo, hi), model.window.size() > 1);
    mon().count(model.window.size() % 2 ? "odd windows" : "even windows");
    MedianFilter<T, N> filter(vp::box<N>(wlo, whi));
    StructuringElement<T, N> element(vp::box<N>(wlo, whi));
    onInput(model, [&](const auto& in) {
      medianFilter(filter, in, model, lo, hi, whole);
      morphology(element, in, model, lo, hi, whole);
    });
    if (r.chance(4)) {
      mon().begin(cat(text, " modified in place, window ", wlo, whi, " region ", lo, hi), model.window.size() > 1);
      modified(filter, element, model, lo, hi);
    }
    model.method = r.range(0, 2);
    // Use again with another method and on the whole input
    if (k % 3 == 0) {
      mon().begin(cat(text, " again with ", model.method, " window ", wlo, whi), model.window.size() > 1);
      onInput(model, [&](const auto& in) {
        medianFilter(filter, in, model, Vec(dim, 0), vp::minus1(model.shape), true);
        morphology(element, in, model, Vec(dim, 0), vp::minus1(model.shape), true);
      });
    }
    radii(model, text);
    balls<T, 1>(model, text);
    balls<T, 2>(model, text);
  }
}

SCENARIO(bytes) { cases<unsigned char>(); }
SCENARIO(shorts) { cases<short>(); }
SCENARIO(ints) { cases<int>(); }
SCENARIO(unsigneds) { cases<unsigned int>(); }
SCENARIO(longs) { cases<long>(); }
SCENARIO(floats) { cases<float>(); }
SCENARIO(doubles) { cases<double>(); }

VP_MAIN
