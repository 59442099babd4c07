// BUILD: name=fixed san=asan parts=5 libs=fftw3
// RULE: A case is a logical shape (odd and even lengths, primes, 1), a real or complex data set, and a history of plans: own or user
//   buffers, forward and inverse, composed, executed repeatedly, moved (construction, assignment, containers), destroyed in any valid
//   order; or a free function on any raster type. Each output is compared with the Fourier sum computed axis by axis in extended
//   precision, guards around user buffers are checked, and memory is accounted. Non-trivial: size > 1. Distinct: by shape and history.
#include "litl.hpp"

#include "LitlTransforms/Dft.h"

using namespace Litl;

#if PART == 3
constexpr Index N = -1;
#elif PART == 4
constexpr Index N = 4;
#else
constexpr Index N = PART + 1;
#endif

using Cpx = std::complex<double>;
using Wide = std::complex<long double>;
using Data = std::vector<Wide>;

/// Fourier sum along each axis
static Data fourier(Data data, const Vec& shape, int sign) {
  const long double twoPi = 2 * std::acos(-1.0L);
  long stride = 1;
  for (auto n : shape) {
    std::vector<Wide> roots(n), line(n);
    for (long k = 0; k < n; ++k) {
      roots[k] = std::polar(1.0L, sign * twoPi * k / n);
    }
    for (long base = 0; base < long(data.size()); ++base) {
      if ((base / stride) % n) {
        continue;
      }
      for (long k = 0; k < n; ++k) {
        Wide sum {};
        for (long j = 0; j < n; ++j) {
          sum += data[base + j * stride] * roots[(j * k) % n];
        }
        line[k] = sum;
      }
      for (long k = 0; k < n; ++k) {
        data[base + k * stride] = line[k];
      }
    }
    stride *= n;
  }
  return data;
}

static Vec halfShape(Vec shape) {
  shape[0] = shape[0] / 2 + 1;
  return shape;
}

/// Restrict to the non redundant half
static Data half(const Data& data, const Vec& shape) {
  Data out;
  for (const auto& p : vp::positions(Vec(shape.size(), 0), vp::minus1(halfShape(shape)))) {
    out.push_back(data[vp::refIndex(shape, p)]);
  }
  return out;
}

static Data randomData(vp::Rng& r, long n, bool real) {
  Data out(n);
  const int kind = r.range(0, 3);
  for (auto& e : out) {
    switch (kind) {
      case 0: // Impulse, see below
        break;
      case 1:
        e = {(long double)(r.range(-9, 9)), (long double)(r.range(-9, 9))};
        break;
      case 2:
        e = {3, 0};
        break;
      default:
        e = {(long double)(double(r.real(-100, 100))), (long double)(double(r.real(-100, 100)))};
    }
    if (real) {
      e = e.real();
    }
  }
  if (kind == 0) {
    out[r.range(0, n - 1)] = 1;
  }
  return out;
}

static long double scaleOf(const Data& data) {
  long double s = 1e-300L;
  for (const auto& e : data) {
    s += std::abs(e);
  }
  return s;
}

static void assign(double& e, const Wide& v) {
  e = double(v.real());
}
static void assign(Cpx& e, const Wide& v) {
  e = Cpx(double(v.real()), double(v.imag()));
}
template <typename TRaster>
void fill(TRaster& raster, const Data& data) {
  std::size_t i = 0;
  for (auto& e : raster) {
    assign(e, data[i++]);
  }
}

template <typename TRaster>
void compare(const TRaster& out, const Vec& shape, const Data& expected, long double tol, const char* key) {
  auto& m = mon();
  m.check(toVec(out.shape()) == shape && out.size() == expected.size(), key, [&] { return cat("shape ", toVec(out.shape()), " expected ", shape); });
  if (out.size() != expected.size()) {
    return;
  }
  for (std::size_t i = 0; i < expected.size(); ++i) {
    m.check(std::abs(Wide(out[i]) - expected[i]) <= tol, key, [&] { return cat("index ", i, " got ", out[i], " expected ", expected[i]); });
  }
}

static Vec randomShape(vp::Rng& r, int dim) {
  static const std::vector<long> lengths {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 31};
  Vec shape(dim);
  if (r.chance(60)) { // Large, with a few axes of length 1
    const long l = r.pick<long>({256, 257, 300, 512, 600, 1000, 1023, 1024, 1025, 1280, 2048, 2049});
    std::fill(shape.begin(), shape.end(), 1);
    shape[r.range(0, dim - 1)] = l;
    shape[r.range(0, dim - 1)] *= r.range(1, 3);
    return shape;
  }
  for (int k = 0; k < 100; ++k) {
    for (auto& l : shape) {
      l = r.pick(lengths);
    }
    if (dim == 1 && r.chance(3)) {
      shape[0] = vp::sizeBiased(r, 130);
    }
    if (vp::product(shape) <= 600) {
      return shape;
    }
  }
  return Vec(dim, 2);
}

constexpr long double eps = 2.3e-16L;

template <typename TPlan>
struct Traits;
template <>
struct Traits<ComplexDft<N>> {
  static constexpr bool real = false;
  static constexpr bool forward = true;
};
template <>
struct Traits<ComplexDft<N>::Inverse> {
  static constexpr bool real = false;
  static constexpr bool forward = false;
};
template <>
struct Traits<RealDft<N>> {
  static constexpr bool real = true;
  static constexpr bool forward = true;
};
template <>
struct Traits<RealDft<N>::Inverse> {
  static constexpr bool real = true;
  static constexpr bool forward = false;
};

/// Some data for the plan, and the transform
struct Sample {
  Data in, out;
  Vec inShape, outShape;
  long double tol;
};
template <typename TPlan>
Sample sampleOf(vp::Rng& r, const Vec& shape) {
  constexpr bool real = Traits<TPlan>::real, forward = Traits<TPlan>::forward;
  const auto time = randomData(r, vp::product(shape), real);
  Sample out;
  out.inShape = out.outShape = shape;
  if (real) {
    (forward ? out.outShape : out.inShape) = halfShape(shape);
  }
  if (forward) {
    out.in = time;
    out.out = fourier(time, shape, -1);
    if (real) {
      out.out = half(out.out, shape);
    }
  } else if (real) { // Hermitian input
    auto frequency = fourier(time, shape, -1);
    out.in = half(frequency, shape);
    for (auto& e : out.in) { // What the plan is given
      e = Wide(Cpx(e));
    }
    out.out = time;
    for (auto& e : out.out) {
      e *= time.size();
    }
  } else {
    out.in = time;
    out.out = fourier(time, shape, 1);
  }
  out.tol = eps * 40 * scaleOf(out.in) * (forward || not real ? 1 : 2);
  return out;
}

template <typename TPlan>
void checkShapes(const TPlan& plan, const Vec& shape, const Sample& s, const char* key) {
  auto& m = mon();
  m.check(toVec(plan.logicalShape()) == shape, key, [&] { return cat("logical ", toVec(plan.logicalShape())); });
  m.check(toVec(plan.inShape()) == s.inShape && toVec(plan.in().shape()) == s.inShape, key, [&] { return cat("in ", toVec(plan.inShape())); });
  m.check(toVec(plan.outShape()) == s.outShape && toVec(plan.out().shape()) == s.outShape, key, [&] { return cat("out ", toVec(plan.outShape())); });
  m.check(plan.normalizationFactor() == double(vp::product(shape)), "normalization-factor", [&] { return cat(plan.normalizationFactor()); });
}

/// Fill, transform and check
template <typename TPlan>
void execute(TPlan& plan, const Vec& shape, const char* key) {
  auto& m = mon();
  const auto s = sampleOf<TPlan>(m.rng, shape);
  checkShapes(plan, shape, s, key);
  if (plan.in().size() != s.in.size()) {
    return;
  }
  fill(plan.in(), s.in);
  auto& self = plan.transform();
  m.check(&self == &plan, key);
  compare(plan.out(), s.outShape, s.out, s.tol, key);
  if (m.rng.chance(2)) {
    plan.normalize();
    auto expected = s.out;
    for (auto& e : expected) {
      e /= (long double)(vp::product(shape));
    }
    compare(plan.out(), s.outShape, expected, s.tol / vp::product(shape) + eps * 4 * scaleOf(expected), "normalize");
  }
  m.count("transforms");
}

/// Forward, and back to the data
template <typename TPlan, typename TInverse>
void roundTrip(TPlan& plan, TInverse& inverse, const Vec& shape, const char* key) {
  auto& m = mon();
  const auto s = sampleOf<TPlan>(m.rng, shape);
  if (plan.in().size() != s.in.size()) {
    return;
  }
  m.check(
      static_cast<const void*>(inverse.in().data()) == plan.out().data() && static_cast<const void*>(inverse.out().data()) == plan.in().data(),
      "shared-buffers");
  fill(plan.in(), s.in);
  plan.transform();
  compare(plan.out(), s.outShape, s.out, s.tol, key);
  inverse.transform().normalize();
  compare(inverse.out(), s.inShape, s.in, s.tol, key);
  compare(plan.in(), s.inShape, s.in, s.tol, key);
  m.count("round trips");
}

/// A guarded aligned block
template <typename T>
struct Guarded {
  char* block;
  T* data;
  std::size_t bytes;
  explicit Guarded(std::size_t n) : bytes(n * sizeof(T)) {
    void* p = nullptr;
    if (posix_memalign(&p, 64, bytes + 128)) {
      throw std::bad_alloc();
    }
    block = static_cast<char*>(p);
    std::memset(block, 0x5A, bytes + 128);
    data = reinterpret_cast<T*>(block + 64);
  }
  Guarded(const Guarded&) = delete;
  ~Guarded() {
    std::free(block);
  }
  bool intact() const {
    for (int i = 0; i < 64; ++i) {
      if (block[i] != 0x5A || block[64 + bytes + i] != 0x5A) {
        return false;
      }
    }
    return true;
  }
};

template <typename TPlan>
void history(const Vec& shape) {
  auto& m = mon();
  auto& r = m.rng;
  const auto p = pos<N>(shape);
  const auto s = sampleOf<TPlan>(r, shape);
  { // Repeated executions, with inverse
    TPlan plan(p);
    execute(plan, shape, "transform");
    execute(plan, shape, "transform-again");
    auto inverse = plan.inverse();
    static_assert(std::is_same<decltype(inverse), typename TPlan::Inverse>::value, "Inverse type");
    m.check(toVec(inverse.logicalShape()) == shape && toVec(inverse.inShape()) == s.outShape && toVec(inverse.outShape()) == s.inShape, "inverse-shape");
    roundTrip(plan, inverse, shape, "round-trip");
    execute(plan, shape, "transform-again");
    execute(inverse, shape, "inverse-transform");
    roundTrip(plan, inverse, shape, "round-trip");
    if (r.chance(2)) { // Inverse of the inverse
      auto back = inverse.inverse();
      execute(back, shape, "inverse-inverse");
      roundTrip(inverse, back, shape, "round-trip-inverse");
    }
    if (r.chance(2)) { // Move both: buffers are kept
      const auto* in = plan.in().data();
      const auto* out = plan.out().data();
      TPlan moved(std::move(plan));
      m.check(moved.in().data() == in && moved.out().data() == out, "moved-buffers");
      auto movedInverse(std::move(inverse));
      roundTrip(moved, movedInverse, shape, "moved-round-trip");
      execute(moved, shape, "moved-transform");
    }
  }
  { // User buffers
    Guarded<typename TPlan::InValue> in(s.in.size());
    Guarded<typename TPlan::OutValue> out(s.out.size());
    const int which = r.range(0, 2);
    {
      TPlan plan(p, which != 1 ? in.data : nullptr, which != 0 ? out.data : nullptr);
      m.check((which == 1 || plan.in().data() == in.data) && (which == 0 || plan.out().data() == out.data), "user-buffers");
      execute(plan, shape, "user-buffers");
      TPlan moved(std::move(plan));
      execute(moved, shape, "user-buffers-moved");
      if (which == 2) {
        Guarded<typename TPlan::OutValue> out2(s.out.size());
        TPlan other(p, in.data, out2.data); // Shares its input
        execute(other, shape, "user-buffers-shared");
        other = std::move(moved);
        execute(other, shape, "user-buffers-assigned");
        m.check(out2.intact(), "guards");
      }
    }
    m.check(in.intact() && out.intact(), "guards");
    in.data[0] = {};
    out.data[0] = {}; // Still there
  }
  { // Assignment of plans of other shapes, with or without content
    const auto shape2 = randomShape(r, shape.size());
    TPlan a(p), b(pos<N>(shape2)), c(p);
    execute(a, shape, "transform");
    execute(b, shape2, "transform");
    a = std::move(b);
    execute(a, shape2, "move-assigned");
    b = std::move(c); // To a moved-from plan
    execute(b, shape, "move-assigned-to-moved");
    auto& alias = a;
    a = std::move(alias);
    execute(a, shape2, "self-move-assigned");
    std::swap(a, b);
    execute(a, shape, "swapped");
    execute(b, shape2, "swapped");
    std::vector<TPlan> plans;
    for (int i = 0; i < 4; ++i) {
      plans.emplace_back(i % 2 ? p : pos<N>(shape2));
    }
    plans.erase(plans.begin() + r.range(0, 1));
    for (auto& plan : plans) {
      execute(plan, toVec(plan.logicalShape()), "in-container");
    }
    m.count("moves", 12);
  }
}

/// Chain with another transform which shares the buffer
static void compositions(const Vec& shape) {
  auto& m = mon();
  auto& r = m.rng;
  const auto p = pos<N>(shape);
  {
    ComplexDft<N> first(p);
    auto second = first.template compose<ComplexDft<N>>(p);
    m.check(second.in().data() == first.out().data(), "composed-buffers");
    const auto s = sampleOf<ComplexDft<N>>(r, shape);
    for (int i = 0; i < 2; ++i) {
      fill(first.in(), s.in);
      first.transform();
      second.transform();
      compare(second.out(), shape, fourier(s.out, shape, -1), s.tol * vp::product(shape) * 3, "composed");
    }
    auto third = second.template compose<ComplexDft<N>::Inverse>(p);
    fill(first.in(), s.in);
    first.transform();
    second.transform();
    third.transform().normalize();
    compare(third.out(), shape, s.out, s.tol * vp::product(shape) * 6, "composed-inverse");
  }
  {
    RealDft<N> first(p);
    const auto hshape = halfShape(shape);
    auto second = first.template compose<ComplexDft<N>>(pos<N>(hshape));
    auto back = first.template compose<RealDft<N>::Inverse>(p); // Own output
    m.check(static_cast<const void*>(second.in().data()) == first.out().data(), "composed-buffers");
    const auto s = sampleOf<RealDft<N>>(r, shape);
    fill(first.in(), s.in);
    first.transform();
    second.transform();
    compare(second.out(), hshape, fourier(s.out, hshape, -1), s.tol * vp::product(shape) * 3, "composed-real");
    fill(first.in(), s.in);
    first.transform();
    back.transform().normalize();
    compare(back.out(), shape, s.in, s.tol, "composed-real-inverse");
    m.check(static_cast<const void*>(back.out().data()) != first.in().data(), "composed-buffers");
  }
  m.count("compositions", 4);
}

template <typename F>
void cases(F&& f, const char* text, int n) {
  auto& r = mon().rng;
  for (int k = 0; k < n * mon().scale; ++k) {
    const auto shape = randomShape(r, vp::dimOf(N, r, 5));
    mon().begin(cat(text, " logical shape ", shape, " case ", k), vp::product(shape) > 1);
    f(shape);
  }
}

SCENARIO(complex_plans) { cases(history<ComplexDft<N>>, "complex", 30); }
SCENARIO(real_plans) { cases(history<RealDft<N>>, "real", 30); }
SCENARIO(inverse_complex_plans) { cases(history<ComplexDft<N>::Inverse>, "inverse complex", 20); }
SCENARIO(inverse_real_plans) { cases(history<RealDft<N>::Inverse>, "inverse real", 20); }
SCENARIO(composed_plans) { cases(compositions, "compositions", 40); }

template <typename TRaster>
void freeReal(TRaster&& raster, const Vec& shape, const Data& data) {
  const std::vector<std::remove_const_t<typename std::decay_t<TRaster>::Value>> before(raster.begin(), raster.end());
  const auto tol = eps * 60 * scaleOf(data);
  const auto expected = half(fourier(data, shape, -1), shape);
  const auto frequency = realDft(raster);
  compare(frequency, halfShape(shape), expected, tol, "real-dft");
  mon().check(std::equal(before.begin(), before.end(), raster.begin()), "input-unchanged");
  const std::vector<Cpx> kept(frequency.begin(), frequency.end());
  const auto back = inverseRealDft(frequency, pos<N>(shape));
  compare(back, shape, data, tol, "inverse-real-dft");
  mon().check(std::equal(kept.begin(), kept.end(), frequency.begin()), "input-unchanged");
}
template <typename TRaster>
void freeComplex(TRaster&& raster, const Vec& shape, const Data& data) {
  const std::vector<std::remove_const_t<typename std::decay_t<TRaster>::Value>> before(raster.begin(), raster.end());
  const auto tol = eps * 60 * scaleOf(data);
  const auto frequency = complexDft(raster);
  compare(frequency, shape, fourier(data, shape, -1), tol, "complex-dft");
  mon().check(std::equal(before.begin(), before.end(), raster.begin()), "input-unchanged");
  const std::vector<Cpx> kept(frequency.begin(), frequency.end());
  const auto back = inverseComplexDft(frequency);
  compare(back, shape, data, tol, "inverse-complex-dft");
  mon().check(std::equal(kept.begin(), kept.end(), frequency.begin()), "input-unchanged");
}

static void freeFunctions(const Vec& shape) {
  auto& r = mon().rng;
  const auto p = pos<N>(shape);
  {
    const auto data = randomData(r, vp::product(shape), true);
    Raster<double, N> raster(p);
    fill(raster, data);
    freeReal(raster, shape, data);
    freeReal(PtrRaster<const double, N>(p, raster.data()), shape, data);
    AlignedRaster<double, N> aligned(p);
    fill(aligned, data);
    freeReal(aligned, shape, data);
    Raster<Cpx, N> complexes(p);
    fill(complexes, data);
    freeComplex(complexes, shape, data);
  }
  {
    Data data;
    Raster<short, N> shorts(p);
    for (auto& e : shorts) {
      e = short(r.range(-999, 999));
      data.push_back(e);
    }
    freeReal(shorts, shape, data);
    freeComplex(shorts, shape, data);
  }
  {
    const auto data = randomData(r, vp::product(shape), false);
    Raster<Cpx, N> raster(p);
    fill(raster, data);
    freeComplex(raster, shape, data);
    AlignedRaster<Cpx, N> aligned(p);
    fill(aligned, data);
    freeComplex(aligned, shape, data);
  }
  mon().count("free transforms", 14);
}
SCENARIO(free_functions) { cases(freeFunctions, "free functions", 40); }

template <typename TPlan>
void account(const char* key) {
  auto& r = mon().rng;
  const auto shape = randomShape(r, vp::dimOf(N, r, 5));
  mon().begin(cat(key, " of shape ", shape));
  const auto p = pos<N>(shape);
  vp::checkNoLeak("no-leak", [&] {
    TPlan a(p), b(p);
    a.transform();
    auto i = a.inverse();
    i.transform();
    a = std::move(b);
    TPlan c(std::move(a));
    c = TPlan(p);
    c.transform();
  });
}
SCENARIO(memory) {
  for (int k = 0; k < 10 * mon().scale; ++k) {
    account<ComplexDft<N>>("memory of complex plans");
    account<RealDft<N>>("memory of real plans");
    account<RealDft<N>::Inverse>("memory of inverse real plans");
    account<ComplexDft<N>::Inverse>("memory of inverse complex plans");
    const auto shape = randomShape(mon().rng, vp::dimOf(N, mon().rng, 5));
    mon().begin(cat("memory of free functions of shape ", shape));
    Raster<double, N> raster(pos<N>(shape));
    vp::checkNoLeak("no-leak", [&] {
      inverseComplexDft(complexDft(raster));
      inverseRealDft(realDft(raster), pos<N>(shape));
    });
  }
}

VP_MAIN
