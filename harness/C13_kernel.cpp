// BUILD: name=fixed san=asan parts=4
// BUILD: name=dynamic san=asan define=DYNAMIC
// RULE: A case is an input raster (type, holder in an exactly-sized block, boundary-biased shape), a kernel (type, shape, window
//   position, possibly larger than the input or not containing the origin, construction) and an extrapolation method. The result of
//   the correlation is compared at every position with the definition. Non-trivial: kernel size > 1. Distinct: by all of these.
#include "litl.hpp"

#include "LitlTransforms/Kernel.h"

using namespace Litl;

#ifdef DYNAMIC
constexpr Index N = -1;
#else
constexpr Index N = PART + 1;
#endif

template <typename T, typename U>
struct Model {
  std::vector<T> in;
  Vec shape;
  int method; ///< 0: constant, 1: nearest, 2: periodic
  T constant;
  std::vector<U> kernel;
  Vec front, back; ///< The window

  T at(Vec p) const {
    bool inside = true;
    for (std::size_t i = 0; i < p.size(); ++i) {
      inside &= p[i] >= 0 && p[i] < shape[i];
    }
    if (not inside && method == 0) {
      return constant;
    }
    for (std::size_t i = 0; i < p.size(); ++i) {
      p[i] = method == 1 ? std::min(std::max(p[i], 0l), shape[i] - 1) : ((p[i] % shape[i]) + shape[i]) % shape[i];
    }
    return in[vp::refIndex(shape, p)];
  }

  decltype(vp::wide(U())) correlate(const Vec& p, long double& scale) const {
    decltype(vp::wide(U())) sum {};
    scale = 0;
    std::size_t k = 0;
    auto r = p;
    for (const auto& q : vp::positions(front, back)) {
      for (std::size_t i = 0; i < p.size(); ++i) {
        r[i] = p[i] + q[i];
      }
      const auto term = vp::wide(kernel[k++]) * vp::wide(at(r));
      sum += term;
      scale += vp::mag(term);
    }
    return sum;
  }
};

template <typename T>
long double epsilon(const T&) {
  return std::is_integral<T>::value ? 0 : std::numeric_limits<T>::epsilon();
}
template <typename T>
long double epsilon(const std::complex<T>&) {
  return 4 * std::numeric_limits<T>::epsilon();
}

template <typename TOut, typename T, typename U>
void checkOutput(const TOut& out, const Model<T, U>& model, const char* key, const std::vector<Vec>& domain) {
  auto& m = mon();
  m.check(toVec(out.shape()) == model.shape, "output-shape", [&] { return cat(toVec(out.shape())); });
  if (toVec(out.shape()) != model.shape) {
    return;
  }
  const auto eps = std::max(epsilon(U()), epsilon(typename TOut::Value()));
  std::size_t i = 0;
  for (const auto& p : domain) {
    long double scale;
    const auto expected = model.correlate(p, scale);
    const auto tol = eps * scale * (model.kernel.size() + 2);
    const auto v = out[i++];
    m.check(vp::near(v, expected, tol), key, [&] { return cat("at ", p, " got ", v, " expected ", expected); });
  }
}

/// Whether the sums of products of inputs of type T and coefficients of type U are to be exact integers, with fractional inputs
template <typename T, typename U>
struct IsMixed {
  static constexpr bool value = std::is_floating_point<T>::value && std::is_integral<U>::value;
};

template <typename T, typename TOther = T>
T value(vp::Rng& r, long max = 9) {
  if (IsMixed<T, TOther>::value) {
    return vp::smallValue<T>(r, -999, 999) / T(4);
  }
  if (IsMixed<TOther, T>::value) {
    return vp::smallValue<T>(r, -9, 9) * T(4);
  }
  if (std::is_integral<T>::value) {
    max = std::min<double>(max, std::pow(2., std::min(std::numeric_limits<T>::digits, 52)) - 1);
    return vp::smallValue<T>(r, -max, max);
  }
  if (r.chance(2)) {
    return vp::smallValue<T>(r, -9, 9);
  }
  return vp::smallValue<T>(r, -999, 999) / T(7);
}

template <typename T, typename U, typename TExtra>
void correlate(const TExtra& extra, const Model<T, U>& model, Kernel<U, N>& kernel, const std::vector<Vec>& domain, const char* key) {
  auto& m = mon();
  const auto out = kernel * extra;
  checkOutput(out, model, key, domain);
  m.count("correlations");
  // In an existing output, which holds something
  const std::size_t size = model.in.size();
  std::unique_ptr<U[]> block(new U[size]);
  std::fill(block.get(), block.get() + size, U(77));
  PtrRaster<U, N> into(pos<N>(model.shape), block.get());
  kernel.correlateTo(extra, into);
  checkOutput(into, model, "correlate-to", domain);
  // Output of another type
  AlignedRaster<std::conditional_t<vp::IsComplex<U>::value, std::complex<long double>, double>, N> other(pos<N>(model.shape));
  other.fill(-3);
  kernel.correlateTo(extra, other);
  checkOutput(other, model, "correlate-to-type", domain);
  // The kernel was not changed
  m.check(std::equal(model.kernel.begin(), model.kernel.end(), kernel.raster().begin()), "kernel-unchanged");
  m.check(toVec(kernel.window().front()) == model.front && toVec(kernel.window().back()) == model.back, "kernel-unchanged");
}

template <typename T, typename U>
void checkKernel(const Kernel<U, N>& kernel, const Model<T, U>& model, const Vec& kshape, const char* key) {
  auto& m = mon();
  m.check(toVec(kernel.window().front()) == model.front && toVec(kernel.window().back()) == model.back, key, [&] {
    return cat("window ", toVec(kernel.window().front()), toVec(kernel.window().back()));
  });
  m.check(toVec(kernel.shape()) == kshape, key);
  const auto raster = kernel.raster();
  m.check(toVec(raster.shape()) == kshape && std::equal(model.kernel.begin(), model.kernel.end(), raster.begin()), key);
}

/// Largest magnitude of integers such that sums of products of that many terms do not overflow
template <typename U>
long amplitude(vp::Rng& r, double terms, int factors = 2) {
  if (not std::is_integral<U>::value || r.chance(2)) {
    return 9;
  }
  const double max = std::pow(2., std::min(std::numeric_limits<U>::digits, 52)) - 1;
  return std::max(9l, long(std::pow(max / terms, 1. / factors)));
}

template <typename T, typename U>
void cases() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < (N == 1 || N == -1 ? 150 : N == 2 ? 120 : N == 3 ? 80 : 50) * m.scale; ++k) {
    const int dim = vp::dimOf(N, r, 3);
    Model<T, U> model;
    const bool manyValues = r.chance(30), manyPixels = not manyValues && r.chance(30);
    const long maxKernel = manyValues ? vp::sizeLarge(r, 5000) : manyPixels ? r.range(1, 5) : r.pick<long>({1, 4, 9, 30, 60});
    model.shape = vp::shapeBiased(r, dim, manyValues ? r.range(1, 30) : manyPixels ? vp::sizeLarge(r, 70000) : r.pick<long>({1, 9, 30, 120, std::max(20l, 12000 / (maxKernel + 10))}));
    const auto kshape = vp::shapeBiased(r, dim, maxKernel);
    const auto max = amplitude<U>(r, vp::product(kshape));
    for (long i = 0; i < vp::product(model.shape); ++i) {
      model.in.push_back(value<T, U>(r, max));
    }
    for (long i = 0; i < vp::product(kshape); ++i) {
      model.kernel.push_back(value<U, T>(r, max));
    }
    model.constant = value<T, U>(r, max);
    const int construction = r.range(0, 3);
    Vec origin(dim);
    for (int i = 0; i < dim; ++i) {
      if (construction == 0) {
        origin[i] = kshape[i] / 2;
      } else if (r.chance(2)) {
        origin[i] = r.range(0, kshape[i] - 1);
      } else { // The window might not contain the origin
        origin[i] = r.range(-model.shape[i] - 2, kshape[i] + model.shape[i] + 1);
      }
      model.front.push_back(-origin[i]);
      model.back.push_back(kshape[i] - 1 - origin[i]);
    }
    model.method = r.range(0, 2);
    const int holder = r.range(0, 2);
    m.begin(
        cat(vp::typeName<T>(), "*", vp::typeName<U>(), " holder ", holder, " shape ", model.shape, " kernel ", kshape, " origin ", origin,
            " constructor ", construction, " method ", model.method, " values ", model.in, model.kernel),
        model.kernel.size() > 1);
    bool origined = true;
    for (int i = 0; i < dim; ++i) {
      origined &= model.front[i] <= 0 && model.back[i] >= 0;
    }
    m.count(origined ? "windows containing the origin" : "windows not containing the origin");
    // Kernel
    std::unique_ptr<U[]> kblock(new U[model.kernel.size()]);
    std::copy(model.kernel.begin(), model.kernel.end(), kblock.get());
    const PtrRaster<U, N> kraster(pos<N>(kshape), kblock.get());
    auto kernel = construction == 0 ? kernelize(kraster) :
        construction == 1           ? kernelize(kraster, pos<N>(origin)) :
        construction == 2           ? kernelize<U, N>(kblock.get(), vp::box<N>(model.front, model.back)) :
                                      Kernel<U, N>(kblock.get(), vp::box<N>(model.front, model.back));
    std::fill(kblock.get(), kblock.get() + model.kernel.size(), U(55)); // The kernel owns its values
    kblock.reset();
    checkKernel(kernel, model, kshape, "kernel-construction");
    // Input
    const auto domain = vp::positions(Vec(dim, 0), vp::minus1(model.shape));
    std::unique_ptr<T[]> block(new T[model.in.size()]);
    std::copy(model.in.begin(), model.in.end(), block.get());
    const auto run = [&](const auto& raster) {
      using TRaster = std::decay_t<decltype(raster)>;
      const auto doIt = [&] {
        if (model.method == 0) {
          correlate(extrapolate<OutOfBoundsConstant<T>>(raster, model.constant), model, kernel, domain, "constant");
        } else if (model.method == 1) {
          correlate(extrapolate<NearestNeighbor>(raster), model, kernel, domain, "nearest");
        } else {
          correlate(Extrapolator<TRaster, Periodic>(raster), model, kernel, domain, "periodic");
        }
      };
      doIt();
      if (holder == 0 && r.chance(3)) { // The input changes in place
        for (std::size_t i = 0; i < model.in.size(); ++i) {
          if (r.chance(2)) {
            block[i] = model.in[i] = value<T, U>(r, max);
          }
        }
        doIt();
        m.count("inputs modified in place");
      }
      if (r.chance(3)) { // Change the kernel through its raster, as well as the method, and use again
        auto copy = kernel;
        const auto saved = model.kernel;
        for (auto& e : model.kernel) {
          e = value<U, T>(r);
        }
        auto view = kernel.raster();
        std::copy(model.kernel.begin(), model.kernel.end(), view.begin());
        model.method = r.range(0, 2);
        doIt();
        m.check(std::equal(saved.begin(), saved.end(), copy.raster().begin()), "kernel-copy");
        m.count("kernels modified");
      }
    };
    if (holder == 0) {
      run(PtrRaster<T, N>(pos<N>(model.shape), block.get()));
    } else if (holder == 1) {
      AlignedRaster<T, N> raster(pos<N>(model.shape));
      std::copy(model.in.begin(), model.in.end(), raster.begin());
      run(raster);
    } else {
      run(Raster<T, N>(pos<N>(model.shape), model.in));
    }
    m.check(std::equal(model.in.begin(), model.in.end(), block.get()), "input-unchanged");
  }
}

SCENARIO(ints) { cases<int, int>(); }
SCENARIO(bytes_by_ints) { cases<unsigned char, int>(); }
SCENARIO(shorts_by_doubles) { cases<short, double>(); }
SCENARIO(doubles_by_ints) { cases<double, int>(); }
SCENARIO(floats) { cases<float, float>(); }
SCENARIO(doubles) { cases<double, double>(); }
SCENARIO(longs) { cases<long, long>(); }
SCENARIO(complexes) { cases<std::complex<double>, std::complex<double>>(); }

VP_MAIN
