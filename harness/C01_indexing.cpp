// BUILD: name=fixed san=asan parts=6
// BUILD: name=dynamic san=asan define=DYNAMIC
// RULE: A case is a (pixel type, holder, dimension, shape) drawn with boundary-biased lengths (1, 2^k, 2^k +- 1, empty
//   axes); all positions (or 4000 random ones) are addressed in every way and compared by address with the row-major
//   reference, then the accessors are called in and out of bounds. Non-trivial: size > 1. Distinct: by the whole tuple.
#include "litl.hpp"
#include <sys/mman.h>

#ifdef DYNAMIC
constexpr Index N0 = -1;
#else
constexpr Index N0 = PART + 1;
#endif

template <typename THolderRaster>
struct Name;
template <typename T, Index N>
struct Name<Litl::VecRaster<T, N>> {
  static std::string get() { return "VecRaster"; }
};
template <typename T, Index N>
struct Name<Litl::ValRaster<T, N>> {
  static std::string get() { return "ValRaster"; }
};
template <typename T, Index N>
struct Name<Litl::AlignedRaster<T, N>> {
  static std::string get() { return "AlignedRaster"; }
};
template <typename T, Index N>
struct Name<Litl::PtrRaster<T, N>> {
  static std::string get() { return "PtrRaster"; }
};

template <Index N, Index I, typename TRaster>
std::enable_if_t<(N == -1 || I >= N)> checkStatic(const TRaster&, const Vec&) {}
template <Index N, Index I, typename TRaster>
std::enable_if_t<(N != -1 && I < N)> checkStatic(const TRaster& raster, const Vec& shape) {
  mon().check(raster.template length<I>() == shape[I], "static-length");
  long stride = 1;
  for (Index i = 0; i < I; ++i) {
    stride *= shape[i];
  }
  mon().check(Litl::shapeStride<I>(raster.shape()) == stride, "static-stride");
  checkStatic<N, I + 1>(raster, shape);
}

template <Index N, typename TRaster>
void examine(TRaster& raster, const Vec& shape, vp::Rng& r) {
  using T = typename TRaster::Value;
  const TRaster& craster = raster;
  auto& m = mon();
  const long size = vp::product(shape);
  const int dim = shape.size();
  const auto shapeText = [&] { return cat("shape ", shape); };
  // Metadata
  m.check(toVec(raster.shape()) == shape, "shape", shapeText);
  m.check(long(raster.size()) == size, "size", shapeText);
  m.check(raster.dimension() == dim, "dimension", shapeText);
  m.check(TRaster::Dimension == N, "static-dimension", shapeText);
  m.check(Litl::shapeSize(raster.shape()) == size, "shape-size", shapeText);
  long stride = 1;
  for (int i = 0; i < dim; ++i) {
    m.check(raster.length(i) == shape[i], "length", shapeText);
    m.check(Litl::shapeStride(raster.shape(), i) == stride, "stride", shapeText);
    stride *= shape[i];
  }
  m.check(Litl::shapeStride(raster.shape(), dim) == size, "stride", shapeText);
  checkStatic<N, 0>(raster, shape);
  const auto domain = raster.domain();
  m.check(toVec(domain.front()) == Vec(dim, 0), "domain-front", shapeText);
  m.check(toVec(domain.back()) == vp::minus1(shape), "domain-back", shapeText);
  m.check(domain.size() == size, "domain-size", shapeText);
  // Iterators
  const T* data = craster.data();
  m.check(raster.data() == data, "data", shapeText);
  m.check(raster.begin() == data && craster.begin() == data && raster.cbegin() == data, "begin", shapeText);
  m.check(raster.end() == data + size && craster.end() == data + size && raster.cend() == data + size, "end", shapeText);
  m.check(raster.emtpy() == (size == 0), "emptiness", shapeText);
  if (size > 0) {
    m.check(&raster.front() == data && &craster.front() == data, "front", shapeText);
    m.check(&raster.back() == data + size - 1 && &craster.back() == data + size - 1, "back", shapeText);
  }
  // Linear access
  const auto checkLinear = [&](long i) {
    const auto text = [&] { return cat("shape ", shape, " index ", i); };
    if (i >= 0 && i < size) {
      m.check(&raster[i] == data + i && &craster[i] == data + i, "linear-access", text);
    }
    const bool in = i >= -size && i < size;
    const T* a = nullptr;
    const T* b = nullptr;
    const auto ta = vp::thrown([&] { a = &raster.at(i); });
    const auto tb = vp::thrown([&] { b = &craster.at(i); });
    const T* expected = in ? data + (i < 0 ? i + size : i) : nullptr;
    m.check(a == expected && b == expected, "linear-at", text);
    m.check(ta == (in ? "none" : "OutOfBoundsError") && tb == ta, "linear-at-bounds", [&] { return text() + " " + ta + " " + tb; });
  };
  for (long i : {0l, 1l, size - 1, size, size + 1, -1l, -size, -size - 1, -size + 1, 2 * size, -2 * size, size / 2}) {
    checkLinear(i);
  }
  for (int k = 0; k < 8; ++k) {
    checkLinear(r.range(-size - 3, size + 3));
  }
  // Positions of the domain
  const auto checkPosition = [&](const Vec& p, long expected) {
    const auto text = [&] { return cat("shape ", shape, " position ", p); };
    const auto q = pos<N>(p);
    m.check(raster.index(q) == expected, "index", text);
    m.check(&raster[q] == data + expected && &craster[q] == data + expected, "position-access", text);
    m.check(&raster.at(q) == data + expected && &craster.at(q) == data + expected, "position-at", text);
    m.check(raster.contains(q), "contains-inside", text);
  };
  if (size > 0) {
    if (size <= 2000) {
      long i = 0;
      Vec p(dim, 0);
      do {
        checkPosition(p, i);
        ++i;
      } while (vp::nextPos(p, Vec(dim, 0), vp::minus1(shape)));
      m.check(i == size, "bijection");
      i = 0;
      for (const auto& q : domain) { // Box iteration is in memory order
        m.check(i < size && &raster[q] == data + i, "domain-order", shapeText);
        ++i;
      }
      m.check(i == size, "domain-order", shapeText);
    } else {
      for (int k = 0; k < 1000; ++k) {
        Vec p(dim);
        for (int i = 0; i < dim; ++i) {
          p[i] = r.chance(4) ? 0 : r.chance(4) ? shape[i] - 1 : r.range(0, shape[i] - 1);
        }
        checkPosition(p, vp::refIndex(shape, p));
      }
    }
  }
  // Positions in and out of the domain
  for (int k = 0; k < 60; ++k) {
    Vec p(dim), wrapped(dim);
    bool in = true, inside = true;
    std::vector<double> real(dim);
    const int outAxis = r.range(-1, dim - 1);
    for (int i = 0; i < dim; ++i) {
      const long s = shape[i];
      if (i == outAxis) {
        p[i] = r.pick(std::vector<long> {-s - 1, -s, -1, s - 1, s, s + 1, 0, 1000000007l, -1000000007l});
      } else {
        p[i] = s > 0 ? r.range(k % 2 ? -s : 0, s - 1) : 0;
      }
      in &= p[i] >= -s && p[i] < s;
      inside &= p[i] >= 0 && p[i] < s;
      wrapped[i] = p[i] < 0 ? p[i] + s : p[i];
      real[i] = p[i] + (r.chance(2) ? 0 : r.pick(std::vector<double> {.25, .5, -.25}));
    }
    const auto q = pos<N>(p);
    const auto text = [&] { return cat("shape ", shape, " position ", p); };
    const T* a = nullptr;
    const T* b = nullptr;
    const auto ta = vp::thrown([&] { a = &raster.at(q); });
    const auto tb = vp::thrown([&] { b = &craster.at(q); });
    const T* expected = in ? data + vp::refIndex(shape, wrapped) : nullptr;
    m.check(a == expected && b == expected, "position-at", text);
    m.check(ta == (in ? "none" : "OutOfBoundsError") && tb == ta, "position-at-bounds", [&] { return text() + " " + ta + " " + tb; });
    m.check(raster.contains(q) == inside, "contains", text);
    bool realInside = true;
    for (int i = 0; i < dim; ++i) {
      realInside &= real[i] >= 0 && real[i] < shape[i];
    }
    m.check(raster.contains(vec<N, double>(real)) == realInside, "contains-real", [&] { return text() + vp::show(real); });
  }
  // Wrong number of coordinates
  if (N == -1 && size > 0) {
    for (int d : {dim - 1, dim + 1, 0}) {
      const auto q = pos<N>(Vec(d, 0));
      const auto text = [&] { return cat("shape ", shape, " coordinates ", d); };
      if (d != dim) {
        m.check(vp::thrown([&] { (void)raster.at(q); }) == "SizeError", "at-dimension", text);
        m.check(vp::thrown([&] { (void)craster.at(q); }) == "SizeError", "at-dimension", text);
        m.check(vp::thrown([&] { (void)raster.index(q); }) == "SizeError", "index-dimension", text);
        m.check(vp::thrown([&] { (void)craster[q]; }) == "SizeError", "access-dimension", text);
      }
    }
  }
}

template <typename T, Index N>
void drive(int cases) {
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const int dim = vp::dimOf(N, r, 6);
    auto shape = vp::shapeBiased(r, dim, r.chance(4) ? 20000 : 300);
    const bool empty = r.chance(12);
    if (empty) {
      shape[r.range(0, dim - 1)] = 0;
    }
    const auto text = cat(" ", vp::typeName<T>(), " N=", N, " shape=", shape);
    const auto p = pos<N>(shape);
    const long size = vp::product(shape);
    mon().begin("VecRaster" + text, size > 1);
    Litl::VecRaster<T, N> v(p);
    examine<N>(v, shape, r);
    mon().begin("AlignedRaster" + text, size > 1);
    Litl::AlignedRaster<T, N> a(p);
    a.fill(T(0));
    examine<N>(a, shape, r);
    if (!empty) {
      mon().begin("ValRaster" + text, size > 1);
      Litl::ValRaster<T, N> w(p);
      examine<N>(w, shape, r);
    }
    mon().begin("PtrRaster" + text, size > 1);
    std::unique_ptr<T[]> buffer(new T[size + 1]());
    Litl::PtrRaster<T, N> q(p, buffer.get());
    examine<N>(q, shape, r);
  }
}

SCENARIO(bytes) { drive<unsigned char, N0>(60); }
SCENARIO(ints) { drive<int, N0>(60); }
SCENARIO(doubles) { drive<double, N0>(60); }
SCENARIO(long_complexes) { drive<std::complex<long double>, N0>(40); }
#ifndef DYNAMIC
SCENARIO(arrays) {
  auto& r = mon().rng;
  for (int k = 0; k < 40 * mon().scale; ++k) {
    Vec shape(N0, 1);
    long left = 24; // Split 24 in all dimensions
    for (int f : {2, 2, 2, 3}) {
      shape[r.range(0, N0 - 1)] *= f;
      left /= f;
    }
    mon().begin(cat("ArrRaster short N=", N0, " shape=", shape));
    Litl::ArrRaster<short, 24, N0> a(pos<N0>(shape));
    examine<N0>(a, shape, r);
  }
}
#else
SCENARIO(no_dimension) {
  for (int k = 0; k < 3; ++k) {
    mon().begin("VecRaster<int, -1> without axis", false);
    Litl::VecRaster<int, -1> v(Litl::Position<-1>(0L));
    mon().check(v.size() == 0 && v.dimension() == 0, "no-axis");
  }
}
#endif

VP_MAIN

/// Address space which nobody can access
struct Reserved {
  explicit Reserved(long n) : size(n), data(static_cast<char*>(mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))) {}
  ~Reserved() { munmap(data, size); }
  long size;
  char* data;
};

SCENARIO(huge) { // Addresses only
  auto& r = mon().rng;
  auto& m = mon();
  constexpr Index N = N0;
  for (int k = 0; k < 60 * m.scale; ++k) {
    const int dim = vp::dimOf(N, r, 6);
    Vec shape(dim);
    long left = 1l << 36, size = 1;
    for (int i = 0; i < dim; ++i) {
      shape[i] = r.chance(4) ? r.range(1, 3) : r.range(1, std::max(1l, std::min(left, r.pick(Vec {70000, 5000000000, 300}))));
      left /= shape[i];
      size *= shape[i];
    }
    m.begin(cat("N=", N, " huge ", shape), true);
    Reserved memory(size);
    if (memory.data == MAP_FAILED) {
      continue;
    }
    Litl::PtrRaster<char, N> raster(pos<N>(shape), memory.data);
    const auto& craster = raster;
    m.check(long(raster.size()) == size, "size", [&] { return cat("got ", raster.size(), " expected ", size); });
    m.check(Litl::shapeSize(raster.shape()) == size, "shape-size");
    m.check(raster.domain().size() == size, "domain");
    m.check(raster.end() - raster.begin() == size, "iterators");
    long stride = 1;
    for (int i = 0; i < dim; ++i) {
      m.check(Litl::shapeStride(raster.shape(), i) == stride, "stride");
      stride *= shape[i];
    }
    for (int j = 0; j < 30; ++j) {
      Vec p(dim), wrapped(dim), q(dim);
      bool in = true;
      for (int i = 0; i < dim; ++i) {
        p[i] = r.chance(3) ? shape[i] - 1 : r.range(0, shape[i] - 1);
        q[i] = r.chance(2) ? p[i] : p[i] - shape[i];
      }
      const long index = vp::refIndex(shape, p);
      const auto text = [&] { return cat("shape ", shape, " position ", p); };
      m.check(raster.index(pos<N>(p)) == index, "index", text);
      m.check(&raster[pos<N>(p)] == memory.data + index && &craster[pos<N>(p)] == memory.data + index, "position-access", text);
      m.check(&raster.at(pos<N>(q)) == memory.data + index && &craster.at(pos<N>(q)) == memory.data + index, "position-at", text);
      m.check(&raster[index] == memory.data + index && &craster.at(index - (r.chance(2) ? size : 0)) == memory.data + index, "index-access", text);
      m.check(raster.contains(pos<N>(p)), "contains", text);
      q[r.range(0, dim - 1)] = 5000000000;
      m.check(not raster.contains(pos<N>(q)) && vp::thrown([&] { (void)raster.at(pos<N>(q)); }) == "OutOfBoundsError", "bounds", [&] { return vp::show(q); });
    }
  }
}
