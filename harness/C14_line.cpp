// BUILD: name=line san=asan define=LINE
// BUILD: name=separable san=asan parts=3
// RULE: A case is a data line or raster in an exactly sized block, a line kernel (values, origin, construction) or a set of line
//   kernels along distinct axes, and a sampling (front, back, step, stride). The output is compared with the sums of products of
//   the zero-padded data, and the rest of the output block is checked untouched. Non-trivial: kernel size > 1. Distinct: by these.
#include "litl.hpp"

#include "LitlContainer/Sequence.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/SeparableKernel.h"

#include <sys/mman.h>

using namespace Litl;

template <typename T>
T value(vp::Rng& r, long max = 9) {
  if (std::is_integral<T>::value || r.chance(2)) {
    max = std::min<double>(max, std::pow(2., std::min(std::numeric_limits<T>::digits, 52)) - 1);
    return vp::smallValue<T>(r, -max, max);
  }
  return vp::smallValue<T>(r, -999, 999) / T(7);
}
template <typename T>
std::vector<T> valuesOf(vp::Rng& r, long n, long max = 9) {
  std::vector<T> out(n);
  for (auto& e : out) {
    e = value<T>(r, max);
  }
  return out;
}
template <typename T>
long double epsilon() {
  return std::is_integral<T>::value ? 0 : std::numeric_limits<T>::epsilon();
}

/// Largest magnitude of integers such that sums of products of that many terms do not overflow
template <typename U>
long amplitude(vp::Rng& r, double terms, int factors = 2) {
  if (not std::is_integral<U>::value || r.chance(2)) {
    return 9;
  }
  const double max = std::pow(2., std::min(std::numeric_limits<U>::digits, 52)) - 1;
  return std::max(9l, long(std::pow(max / terms, 1. / factors)));
}

#ifdef LINE

template <typename T, typename U>
struct Model {
  std::vector<T> line; ///< Without stride
  std::vector<U> kernel;
  long origin;
  long double at(long i, long double& scale) const {
    long double sum = 0;
    scale = 0;
    for (long k = 0; k < long(kernel.size()); ++k) {
      const long j = i + k - origin;
      if (j >= 0 && j < long(line.size())) {
        const auto term = (long double)(line[j]) * kernel[k];
        sum += term;
        scale += std::fabs(term);
      }
    }
    return sum;
  }
};

template <typename TOut, typename T, typename U>
void checkAt(const TOut& out, const Model<T, U>& model, long i, const char* key) {
  long double scale;
  const auto expected = model.at(i, scale);
  const auto tol = std::max(epsilon<TOut>(), epsilon<U>()) * scale * (model.kernel.size() + 2);
  mon().check(std::fabs(out - expected) <= tol, key, [&] { return cat("at ", i, " got ", out, " expected ", expected); });
}

template <typename T, typename U, typename TOut>
void lines() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 700 * m.scale; ++k) {
    Model<T, U> model;
    const long size = vp::sizeUpTo(r, r.pick<long>({1, 4, 20, 130}), 70000, 70);
    const long ksize = size > 20 || not r.chance(40) ? vp::sizeBiased(r, r.pick<long>({1, 3, 9, 40})) : vp::sizeLarge(r, 70000);
    const auto max = amplitude<U>(r, ksize);
    model.line = valuesOf<T>(r, size, max);
    model.kernel = valuesOf<U>(r, ksize, max);
    const int construction = r.range(0, 5);
    model.origin = construction % 2 ? ksize / 2 : r.range(0, ksize - 1);
    const long stride = r.chance(2) ? 1 : r.range(2, 7);
    const long offset = r.chance(2) ? 0 : r.range(0, stride - 1);
    const long front = r.chance(2) ? 0 : r.range(0, size - 1);
    const bool infinite = r.chance(3);
    const long back = infinite ? size - 1 : r.range(front, size - 1);
    const long step = r.chance(2) ? 1 : r.range(1, r.pick<long>({2, 5, 200}));
    m.begin(
        cat(vp::typeName<T>(), " by ", vp::typeName<U>(), " line ", model.line, " kernel ", model.kernel, " origin ", model.origin, " constructor ",
            construction, " stride ", stride, " sampling ", front, ":", back, ":", step, infinite ? " infinite" : ""),
        ksize > 1);
    // Kernels
    const auto& kv = model.kernel;
    const Sequence<U> sequence(kv);
    const auto kernel = [&]() -> LineKernel<U> {
      switch (construction) {
        case 0:
          return LineKernel<U>(kv, model.origin);
        case 1:
          return LineKernel<U>(kv);
        case 2:
          return kernelize<U>(kv.data(), Segment {-model.origin, ksize - 1 - model.origin});
        case 3:
          return kernelize(sequence);
        default:
          return kernelize(sequence, Index(model.origin));
      }
    }();
    const Kernel1d<U> kernel1d(kv, model.origin);
    m.check(kernel.window().front() == -model.origin && kernel.window().back() == ksize - 1 - model.origin, "line-window", [&] {
      return cat(kernel.window().front(), ":", kernel.window().back());
    });
    m.check(kernel.origin() == model.origin && *kernel.originData() == kv[model.origin], "line-origin");
    m.check(kernel.size() == kv.size() && std::equal(kv.begin(), kv.end(), kernel.begin()), "line-values");
    m.check(kernel1d.backward() == model.origin && kernel1d.forward() == ksize - 1 - model.origin, "kernel1d-origin");
    m.check(*kernel1d.originData() == kv[model.origin] && std::equal(kv.begin(), kv.end(), kernel1d.begin()), "kernel1d-values");
    // Data: elements out of the line are huge so that they would be noticed
    const long total = offset + (size - 1) * stride + 1;
    std::unique_ptr<T[]> block(new T[total]);
    std::fill(block.get(), block.get() + total, T(101));
    for (long i = 0; i < size; ++i) {
      block[offset + i * stride] = model.line[i];
    }
    const std::vector<T> before(block.get(), block.get() + total);
    const long count = (back - front) / step + 1;
    const long outStep = r.chance(2) ? 1 : r.range(1, 3), outStride = r.chance(2) ? 1 : r.range(1, 3), outFront = r.chance(2) ? 0 : r.range(0, 3);
    const long outTotal = (outFront + (count - 1) * outStep) * outStride + 1;
    const IndexSampling sampling {front, infinite ? Limits<Index>::inf() : back, step};
    const IndexSampling outSampling {outFront, Limits<Index>::inf(), outStep};
    for (int which = 0; which < 2; ++which) {
      std::unique_ptr<TOut[]> out(new TOut[outTotal]);
      std::fill(out.get(), out.get() + outTotal, TOut(-77));
      DataSamples<const T> in(block.get() + offset, size, sampling, stride);
      DataSamples<TOut> to(out.get(), outFront + (count - 1) * outStep + 1, outSampling, outStride);
      const char* key = which ? "kernel1d-correlate" : "line-correlate";
      if (which) {
        kernel1d.sparseCorrelate1dTo(in, to);
      } else {
        kernel.correlate(in, to);
      }
      long n = 0;
      for (long j = 0; j < outTotal; ++j) {
        const bool sample = j % outStride == 0 && j / outStride >= outFront && (j / outStride - outFront) % outStep == 0;
        if (sample && n < count) {
          checkAt(out[j], model, front + n++ * step, key);
        } else {
          m.check(out[j] == TOut(-77), "output-untouched");
        }
      }
      m.count("samples", count);
    }
    m.check(std::equal(before.begin(), before.end(), block.get()), "input-unchanged");
  }
}

/// A line which is larger than memory: only the windows are written and read
SCENARIO(far_lines) {
  auto& r = mon().rng;
  auto& m = mon();
  const long length = 1l << 33;
  const long bytes = length * long(sizeof(short));
  void* const map = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (map == MAP_FAILED) {
    m.count("no address space");
    return;
  }
  short* const block = static_cast<short*>(map);
  for (int k = 0; k < 60 * m.scale; ++k) {
    const long stride = r.chance(2) ? 1 : r.range(1, 1l << r.range(1, 24));
    const long size = (length - 1) / stride;
    const long ksize = r.range(1, 7), origin = r.range(0, ksize - 1);
    const long back = r.chance(2) ? size - 1 : r.range(0, size - 1), front = r.chance(2) ? 0 : r.range(0, back);
    const long step = std::max(1l, (back - front) / r.range(1, 8));
    const long count = (back - front) / step + 1;
    if (count > 50) {
      continue;
    }
    const bool infinite = back == size - 1 && r.chance(2);
    m.begin(cat("far line of ", size, " stride ", stride, " sampling ", front, ":", back, ":", step, " kernel ", ksize, " origin ", origin), true);
    const auto kv = valuesOf<long>(r, ksize);
    std::vector<long> expected(count);
    for (long i = 0; i < count; ++i) {
      for (long j = 0; j < ksize; ++j) {
        const long at = front + i * step + j - origin;
        if (at >= 0 && at < size) {
          block[at * stride] = short(at % 997 - 400);
          expected[i] += kv[j] * (at % 997 - 400);
        }
      }
    }
    const DataSamples<const short> in(block, size, IndexSampling {front, infinite ? Limits<Index>::inf() : back, step}, stride);
    for (int which = 0; which < 2; ++which) {
      std::vector<long> output(count, -1);
      DataSamples<long> out(output.data(), count, IndexSampling {0, Limits<Index>::inf(), 1});
      if (which) {
        Kernel1d<long>(kv, origin).sparseCorrelate1dTo(in, out);
      } else {
        LineKernel<long>(kv, origin).correlate(in, out);
      }
      m.check(output == expected, which ? "kernel1d-far" : "line-far", [&] { return cat("got ", output, " expected ", expected); });
    }
    m.count("far outputs", count);
    for (long i = 0; i < count; ++i) {
      for (long j = 0; j < ksize; ++j) {
        const long at = front + i * step + j - origin;
        if (at >= 0 && at < size) {
          block[at * stride] = 0;
        }
      }
    }
    madvise(map, bytes, MADV_DONTNEED);
  }
  munmap(map, bytes);
}
SCENARIO(lines_ints) { lines<int, int, int>(); }
SCENARIO(lines_bytes) { lines<unsigned char, int, int>(); }
SCENARIO(lines_doubles) { lines<double, double, double>(); }
SCENARIO(lines_floats) { lines<float, float, double>(); }
SCENARIO(lines_mixed) { lines<int, double, double>(); }
SCENARIO(lines_longs) { lines<long, long, long>(); }

/// Zero-padded correlation of a raster along an axis
template <typename U>
std::vector<long double> alongAxis(const std::vector<long double>& in, const Vec& shape, int axis, const std::vector<U>& kernel, long origin) {
  std::vector<long double> out;
  for (const auto& p : vp::positions(Vec(shape.size(), 0), vp::minus1(shape))) {
    long double sum = 0;
    auto q = p;
    for (long k = 0; k < long(kernel.size()); ++k) {
      q[axis] = p[axis] + k - origin;
      if (q[axis] >= 0 && q[axis] < shape[axis]) {
        sum += in[vp::refIndex(shape, q)] * kernel[k];
      }
    }
    out.push_back(sum);
  }
  return out;
}

template <typename TOut>
void compare(const TOut& out, const Vec& shape, const std::vector<long double>& expected, long double tol, const char* key) {
  auto& m = mon();
  m.check(toVec(out.shape()) == shape, key, [&] { return cat("shape ", toVec(out.shape())); });
  if (toVec(out.shape()) != shape) {
    return;
  }
  for (std::size_t i = 0; i < expected.size(); ++i) {
    m.check(std::fabs(out[i] - expected[i]) <= tol, key, [&] { return cat("index ", i, " got ", out[i], " expected ", expected[i]); });
  }
}

template <Index Axis, typename T, typename U, typename TIn>
void along(const Kernel1d<U>& kernel, const std::vector<U>& kv, const TIn& in, const std::vector<T>& values, const Vec& shape, long double tol) {
  if (Axis >= long(shape.size())) {
    return;
  }
  const std::vector<long double> wide(values.begin(), values.end());
  const auto expected = alongAxis(wide, shape, Axis, kv, kernel.backward());
  compare(kernel.template correlateAlong<Axis>(in), shape, expected, tol, "kernel1d-along");
  compare(kernel.template correlateAlong<Axis, double>(in), shape, expected, tol, "kernel1d-along-type");
}

template <Index N, typename T, typename U>
void rasters() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 100 * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, N, vp::upTo(r, r.pick<long>({4, 30, 300}), 70000, 25));
    const auto max = amplitude<U>(r, 7);
    const auto values = valuesOf<T>(r, vp::product(shape), max);
    const auto kv = valuesOf<U>(r, r.range(1, 7), max);
    const long origin = r.range(0, kv.size() - 1);
    m.begin(cat("rasters ", vp::typeName<T>(), " by ", vp::typeName<U>(), " shape ", shape, " kernel ", kv, " origin ", origin), kv.size() > 1);
    const Kernel1d<U> kernel(kv, origin);
    std::unique_ptr<T[]> block(new T[values.size()]);
    std::copy(values.begin(), values.end(), block.get());
    const PtrRaster<const T, N> in(pos<N>(shape), block.get());
    const auto tol = std::max(epsilon<T>(), epsilon<U>()) * 1e6;
    along<0>(kernel, kv, in, values, shape, tol);
    along<std::min<Index>(1, N - 1)>(kernel, kv, in, values, shape, tol);
    along<N - 1>(kernel, kv, in, values, shape, tol);
    m.check(std::equal(values.begin(), values.end(), block.get()), "input-unchanged");
  }
}
SCENARIO(rasters_1d) { rasters<1, int, int>(); }
SCENARIO(rasters_2d) { rasters<2, short, int>(); }
SCENARIO(rasters_2d_doubles) { rasters<2, double, double>(); }
SCENARIO(rasters_3d) { rasters<3, int, int>(); }
SCENARIO(rasters_4d) { rasters<4, float, double>(); }

template <typename T, typename U>
void sparse2d() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 150 * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, 2, vp::upTo(r, r.pick<long>({4, 30, 300}), 70000, 40));
    const auto max = amplitude<U>(r, 49, 3);
    const auto values = valuesOf<T>(r, vp::product(shape), max);
    const auto kv = valuesOf<U>(r, r.range(1, 7), max);
    const long origin = r.range(0, kv.size() - 1);
    Vec lo(2), hi(2), step(2), count(2);
    for (int i = 0; i < 2; ++i) {
      lo[i] = r.chance(2) ? 0 : r.range(0, shape[i] - 1);
      hi[i] = r.chance(2) ? shape[i] - 1 : r.range(lo[i], shape[i] - 1);
      step[i] = r.chance(2) ? 1 : r.range(1, 6);
      count[i] = (hi[i] - lo[i]) / step[i] + 1;
    }
    m.begin(
        cat("2D ", vp::typeName<T>(), " by ", vp::typeName<U>(), " shape ", shape, " kernel ", kv, " origin ", origin, " sampling ", lo, hi, step),
        kv.size() > 1);
    Kernel1d<U> kernel(kv, origin);
    std::unique_ptr<T[]> block(new T[values.size()]);
    std::copy(values.begin(), values.end(), block.get());
    const PtrRaster<const T, 2> in(pos<2>(shape), block.get());
    const std::vector<long double> wide(values.begin(), values.end());
    const auto full = alongAxis(alongAxis(wide, shape, 0, kv, origin), shape, 1, kv, origin);
    const auto tol = std::max(epsilon<T>(), epsilon<U>()) * 1e7;
    Raster<U, 2> out(pos<2>(shape));
    kernel.correlate2dTo(in, out);
    compare(out, shape, full, tol, "kernel1d-2d");
    std::vector<long double> sampled;
    for (long y = lo[1]; y <= hi[1]; y += step[1]) {
      for (long x = lo[0]; x <= hi[0]; x += step[0]) {
        sampled.push_back(full[x + y * shape[0]]);
      }
    }
    std::unique_ptr<U[]> oblock(new U[sampled.size()]);
    PtrRaster<U, 2> sparse(pos<2>(count), oblock.get());
    kernel.sparseCorrelate2dTo(in, PositionSampling<2>(vp::box<2>(lo, hi), pos<2>(step)), sparse);
    compare(sparse, count, sampled, tol, "kernel1d-sparse-2d");
    m.check(std::equal(values.begin(), values.end(), block.get()), "input-unchanged");
    m.count("2D samples", sampled.size());
  }
}
SCENARIO(sparse2d_ints) { sparse2d<int, int>(); }
SCENARIO(sparse2d_bytes) { sparse2d<unsigned char, long>(); }
SCENARIO(sparse2d_doubles) { sparse2d<double, double>(); }

#else // Separable

constexpr Index N = PART + 2; // Dimension of the rasters

template <typename U>
struct Line {
  std::vector<U> values;
  long origin;
};

/// Reference: a set of lines along distinct axes
template <typename U>
struct Model {
  std::map<int, Line<U>> lines;

  std::vector<U> outer(int dim, Vec& front, Vec& back) const {
    front.assign(dim, 0);
    back.assign(dim, 0);
    for (const auto& l : lines) {
      front[l.first] = -l.second.origin;
      back[l.first] = long(l.second.values.size()) - 1 - l.second.origin;
    }
    std::vector<U> out;
    for (const auto& q : vp::positions(front, back)) {
      U v(1);
      for (const auto& l : lines) {
        v *= l.second.values[q[l.first] + l.second.origin];
      }
      out.push_back(v);
    }
    return out;
  }
};

template <typename TKernel, typename U>
void checkKernel(const TKernel& kernel, const Model<U>& model, const char* key) {
  auto& m = mon();
  constexpr Index D = TKernel::Dimension;
  m.check(D == model.lines.rbegin()->first + 1, "dimension", [&] { return cat("dimension ", long(D)); });
  Vec front, back;
  const auto outer = model.outer(D, front, back);
  const auto window = kernel.window();
  m.check(toVec(window.front()) == front && toVec(window.back()) == back, key, [&] {
    return cat("window ", toVec(window.front()), toVec(window.back()), " expected ", front, back);
  });
  const auto composed = kernel.compose();
  m.check(toVec(composed.window().front()) == front && toVec(composed.window().back()) == back, key, [&] {
    return cat("composed window ", toVec(composed.window().front()), toVec(composed.window().back()), " expected ", front, back);
  });
  const auto raster = composed.raster();
  m.check(raster.size() == outer.size(), key);
  if (raster.size() == outer.size()) {
    for (std::size_t i = 0; i < outer.size(); ++i) {
      m.check(vp::near(raster[i], outer[i], epsilon<U>() * 10 * std::fabs(outer[i])), key, [&] { return cat("composed ", list(raster), " expected ", list(outer)); });
    }
  }
  std::size_t count = 0;
  for (const auto& k : kernel) {
    const auto it = model.lines.find(k.first);
    m.check(it != model.lines.end() && std::equal(k.second.begin(), k.second.end(), it->second.values.begin()), key);
    ++count;
  }
  m.check(count == model.lines.size(), key);
  for (const auto& l : model.lines) {
    const auto& k = kernel[l.first];
    m.check(
        k.size() == l.second.values.size() && k.origin() == l.second.origin && std::equal(k.begin(), k.end(), l.second.values.begin()),
        key,
        [&] { return cat("line ", l.first); });
  }
}

template <Index D, typename TKernel, typename T, std::enable_if_t<D == N>* = nullptr>
void crossCheck(const TKernel& kernel, const Raster<T, N>& raster, const std::vector<long double>& expected, long double tol) {
  auto composed = kernel.compose();
  const auto out = composed * extrapolate<OutOfBoundsConstant<T>>(raster, T(0));
  bool same = true;
  for (std::size_t i = 0; i < expected.size(); ++i) {
    same &= std::fabs(out[i] - expected[i]) <= tol;
  }
  mon().check(same, "composed-correlation");
}
template <Index D, typename TKernel, typename T, std::enable_if_t<D != N>* = nullptr>
void crossCheck(const TKernel&, const Raster<T, N>&, const std::vector<long double>&, long double) {}

template <typename T, typename TKernel, typename U>
void checkCorrelation(const TKernel& kernel, const Model<U>& model, const char* key) {
  auto& m = mon();
  auto& r = m.rng;
  const auto shape = vp::shapeBiased(r, N, vp::upTo(r, r.pick<long>({2, 20, 150}), 9000, 60));
  const auto values = valuesOf<T>(r, vp::product(shape));
  const auto text = [&](std::size_t i, long double expected) { return cat("shape ", shape, " index ", i, " expected ", expected, " values ", values); };
  Vec front, back;
  const auto outer = model.outer(N, front, back);
  std::vector<long double> expected;
  long double scale = 0;
  for (const auto& p : vp::positions(Vec(N, 0), vp::minus1(shape))) {
    long double sum = 0, local = 0;
    std::size_t k = 0;
    auto q = p;
    for (const auto& o : vp::positions(front, back)) {
      bool in = true;
      for (int i = 0; i < N; ++i) {
        q[i] = p[i] + o[i];
        in &= q[i] >= 0 && q[i] < shape[i];
      }
      if (in) {
        const auto term = (long double)(outer[k]) * values[vp::refIndex(shape, q)];
        sum += term;
        local += std::fabs(term);
      }
      ++k;
    }
    expected.push_back(sum);
    scale = std::max(scale, local);
  }
  const auto tol = std::max(epsilon<T>(), epsilon<U>()) * scale * (outer.size() + 10);
  const auto examine = [&](const auto& out) {
    m.check(toVec(out.shape()) == shape && out.size() == expected.size(), key);
    for (std::size_t i = 0; i < expected.size() && i < out.size(); ++i) {
      m.check(std::fabs(out[i] - expected[i]) <= tol, key, [&] { return text(i, expected[i]); });
    }
    m.count("separable correlations");
  };
  const Raster<T, N> raster(pos<N>(shape), values);
  examine(kernel * raster);
  std::unique_ptr<T[]> block(new T[values.size()]);
  std::copy(values.begin(), values.end(), block.get());
  examine(kernel * PtrRaster<const T, N>(pos<N>(shape), block.get()));
  Raster<double, N> out(pos<N>(shape));
  out.fill(-7);
  kernel.correlateTo(raster, out);
  examine(out);
  m.check(std::equal(values.begin(), values.end(), raster.begin()) && std::equal(values.begin(), values.end(), block.get()), "input-unchanged");
  crossCheck<TKernel::Dimension>(kernel, raster, expected, tol);
}

template <typename U>
Line<U> randomLine(vp::Rng& r) {
  Line<U> out;
  out.values = valuesOf<U>(r, r.range(1, 5));
  out.origin = r.range(0, out.values.size() - 1);
  return out;
}

template <typename T, typename U, Index I0>
void multiply(const Line<U>&, const Line<U>&) {}
template <typename T, typename U, Index I0, Index I1, Index... Is>
void multiply(const Line<U>& first, const Line<U>& others) {
  auto& m = mon();
  Model<U> model;
  model.lines[I0] = first;
  for (auto a : {I1, Is...}) {
    model.lines[a] = others;
  }
  m.begin(
      cat("product ", vp::typeName<T>(), " by ", vp::typeName<U>(), " axis ", I0, " ", first.values, " origin ", first.origin, " axes ",
          list(std::vector<Index> {I1, Is...}), " ", others.values, " origin ", others.origin));
  const auto a = LineKernel<U>(first.values, first.origin).template along<I0>();
  const auto b = LineKernel<U>(others.values, others.origin).template along<I1, Is...>();
  const auto ab = a * b;
  const auto ba = b * a;
  checkKernel(ab, model, "product");
  checkKernel(ba, model, "product-commuted");
  checkCorrelation<T>(ab, model, "product-correlation");
  checkCorrelation<T>(ba, model, "product-commuted-correlation");
  // Operands were not changed
  Model<U> left;
  left.lines[I0] = first;
  checkKernel(a, left, "product-operand");
  // Copies
  const auto copy = ab;
  checkKernel(copy, model, "product-copy");
}

template <typename T, typename U, Index I0>
void named() {}
template <typename T, typename U, Index I0, Index I1, Index... Is>
void named() {
  auto& m = mon();
  using K = SeparableKernel<U, I0, I1, Is...>;
  const U sign = m.rng.chance(2) ? -1 : 1;
  const auto check = [&](const K& kernel, const std::vector<U>& averaging, U s, const char* key) {
    m.begin(cat(key, " ", vp::typeName<T>(), " by ", vp::typeName<U>(), " axis ", I0, " then ", list(std::vector<Index> {I1, Is...}), " sign ", s));
    Model<U> model;
    model.lines[I0] = Line<U> {{s, 0, U(-s)}, 1};
    for (auto a : {I1, Is...}) {
      model.lines[a] = Line<U> {averaging, 1};
    }
    checkKernel(kernel, model, key);
    checkCorrelation<T>(kernel, model, key);
  };
  check(K::prewitt(sign), {1, 1, 1}, sign, "prewitt");
  check(K::sobel(sign), {1, 2, 1}, sign, "sobel");
  check(K::scharr(sign), {3, 10, 3}, sign, "scharr");
  check(K::prewitt(), {1, 1, 1}, 1, "prewitt-default");
  check(K::sobel(), {1, 2, 1}, 1, "sobel-default");
  check(K::scharr(), {3, 10, 3}, 1, "scharr-default");
}

template <typename T, typename U, Index I0, Index... Is>
void one() {
  auto& m = mon();
  auto& r = m.rng;
  const std::vector<Index> axes {I0, Is...};
  Model<U> model;
  // Same line along all axes
  const auto line = randomLine<U>(r);
  for (auto a : axes) {
    model.lines[a] = line;
  }
  m.begin(cat(vp::typeName<T>(), " by ", vp::typeName<U>(), " axes ", list(axes), " along ", line.values, " origin ", line.origin), line.values.size() > 1);
  const auto kernel = LineKernel<U>(line.values, line.origin).template along<I0, Is...>();
  checkKernel(kernel, model, "along");
  checkCorrelation<T>(kernel, model, "along-correlation");
  const SeparableKernel<U, I0, Is...> constructed(LineKernel<U>(line.values, line.origin));
  checkKernel(constructed, model, "along-constructor");
  // Product of lines along each axis
  if (sizeof...(Is) > 0) {
    auto first = randomLine<U>(r), others = randomLine<U>(r);
    multiply<T, U, I0, Is...>(first, others);
    named<T, U, I0, Is...>();
  }
  // Laplacian
  const U sign = r.chance(2) ? -1 : 1;
  for (auto a : axes) {
    model.lines[a] = Line<U> {{sign, U(-2 * sign), sign}, 1};
  }
  m.begin(cat("laplacian ", vp::typeName<T>(), " by ", vp::typeName<U>(), " axes ", list(axes), " sign ", sign));
  const auto laplacian = SeparableKernel<U, I0, Is...>::laplacian(sign);
  checkKernel(laplacian, model, "laplacian");
  checkCorrelation<T>(laplacian, model, "laplacian-correlation");
  if (sign == 1) {
    checkKernel(SeparableKernel<U, I0, Is...>::laplacian(), model, "laplacian-default");
  }
}

/// Two kernels along the same axis
template <typename T, typename U>
void sameAxis() {
  auto& m = mon();
  for (int k = 0; k < 8 * m.scale; ++k) {
    const auto a = randomLine<U>(m.rng), b = randomLine<U>(m.rng);
    m.begin(cat("same axis ", vp::typeName<U>(), " ", a.values, " origin ", a.origin, " then ", b.values, " origin ", b.origin));
    const auto product = LineKernel<U>(a.values, a.origin).template along<0>() * LineKernel<U>(b.values, b.origin).template along<0>();
    // The correlation by both is a correlation by their full convolution
    Line<U> both {std::vector<U>(a.values.size() + b.values.size() - 1), a.origin + b.origin};
    for (std::size_t i = 0; i < a.values.size(); ++i) {
      for (std::size_t j = 0; j < b.values.size(); ++j) {
        both.values[i + j] += a.values[i] * b.values[j];
      }
    }
    const auto window = product.window();
    m.check(window.front()[0] == -both.origin && window.back()[0] == long(both.values.size()) - 1 - both.origin, "same-axis-product", [&] {
      return cat("window ", window.front()[0], ":", window.back()[0]);
    });
  }
}

template <typename T, typename U>
void cases() {
  for (int k = 0; k < 12 * mon().scale; ++k) {
    one<T, U, 0>();
    one<T, U, 1>();
    one<T, U, 0, 1>();
    one<T, U, 1, 0>();
#if PART >= 1
    one<T, U, 2>();
    one<T, U, 0, 2>();
    one<T, U, 2, 0>();
    one<T, U, 2, 1, 0>();
    one<T, U, 1, 0, 2>();
#endif
#if PART >= 2
    one<T, U, 3>();
    one<T, U, 3, 1>();
    one<T, U, 1, 3, 0>();
#endif
  }
}

SCENARIO(separable_ints) { cases<int, int>(); }
SCENARIO(separable_bytes) { cases<unsigned char, int>(); }
SCENARIO(separable_doubles) { cases<double, double>(); }
#if PART == 0
SCENARIO(separable_shorts) { cases<short, long>(); }
SCENARIO(separable_mixed) { cases<int, double>(); }
SCENARIO(same_axis) { sameAxis<int, int>(); }
#endif

#endif

VP_MAIN
