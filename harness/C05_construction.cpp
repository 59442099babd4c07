// BUILD: name=fixed san=asan parts=3
// BUILD: name=dynamic san=asan define=DYNAMIC
// RULE: A case is (holder, element type, shape, construction path, contents); the content, shape and addresses of the result
//   are compared with the source; then a random history of copies, moves, assignments and writes runs on a pool of objects
//   mirrored by plain vectors. Non-trivial: more than one element. Distinct: by path, shape and contents.
#include "litl.hpp"

#include "LitlContainer/Sequence.h"

#include <list>

#ifdef DYNAMIC
constexpr Index N = -1;
#else
constexpr Index N = PART + 1;
#endif

using Litl::Raster;
using Litl::Sequence;

template <typename TContainer, typename T>
bool same(const TContainer& c, const std::vector<T>& v) {
  if (c.size() != v.size()) {
    return false;
  }
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (!(c[i] == v[i])) {
      return false;
    }
  }
  return std::equal(c.begin(), c.end(), v.begin(), v.end());
}

template <typename TRaster, typename T>
void expect(const TRaster& raster, const Vec& shape, const std::vector<T>& v, const char* key) {
  mon().check(toVec(raster.shape()) == shape, key, [&] { return cat("shape ", toVec(raster.shape())); });
  mon().check(raster.dimension() == Index(shape.size()), key);
  mon().check(same(raster, v), key, [&] { return cat("content ", list(raster), " expected ", vp::show(v)); });
}

template <typename T>
T fresh(vp::Rng& r) {
  return vp::smallValue<T>(r, 1, 120);
}

template <typename T>
std::vector<T> freshes(vp::Rng& r, std::size_t n) {
  std::vector<T> v(n);
  for (auto& e : v) {
    e = fresh<T>(r);
  }
  return v;
}

// ------------------------------------------------------------------ values of holders

template <typename T>
std::vector<T> toContainer(const std::vector<T>& v, std::vector<T>*) {
  return v;
}
template <typename T>
std::valarray<T> toContainer(const std::vector<T>& v, std::valarray<T>*) {
  return std::valarray<T>(v.data(), v.size());
}
template <typename T, std::size_t S>
std::array<T, S> toContainer(const std::vector<T>& v, std::array<T, S>*) {
  std::array<T, S> out {};
  std::copy(v.begin(), v.end(), out.begin());
  return out;
}

/// An allocator which counts what it holds
static thread_local long held = 0;
template <typename T>
struct CountingAllocator {
  using value_type = T;
  CountingAllocator() = default;
  template <typename U>
  CountingAllocator(const CountingAllocator<U>&) {}
  T* allocate(std::size_t n) {
    held += n * sizeof(T);
    return static_cast<T*>(::operator new(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) {
    held -= n * sizeof(T);
    ::operator delete(p);
  }
  template <typename U>
  bool operator==(const CountingAllocator<U>&) const {
    return true;
  }
  template <typename U>
  bool operator!=(const CountingAllocator<U>&) const {
    return false;
  }
};
template <typename T>
std::vector<T, CountingAllocator<T>> toContainer(const std::vector<T>& v, std::vector<T, CountingAllocator<T>>*) {
  return {v.begin(), v.end()};
}

/// All the construction paths of rasters held by standard containers
template <typename TRaster>
void stdPaths(const Vec& shape, const std::vector<typename TRaster::Value>& v, bool fixedSize, vp::Rng& r) {
  using T = typename TRaster::Value;
  using C = typename TRaster::Holder::Container;
  auto& m = mon();
  const auto p = pos<N>(shape);
  const auto n = v.size();
  // No data
  for (int i = 0; i < 2; ++i) { // Dirty the heap so that uninitialized values show up
    std::unique_ptr<T[]> dirt(new T[n + 3]);
    std::fill_n(dirt.get(), n + 3, T(77));
    dirt.reset();
    expect(TRaster(p), shape, std::vector<T>(n), "no-data");
  }
  // Iterables
  const std::vector<T> vector = v;
  expect(TRaster(p, vector), shape, v, "const-vector");
  std::vector<T> mutableVector = v;
  expect(TRaster(p, mutableVector), shape, v, "vector");
  m.check(mutableVector == v, "source-unchanged");
  const std::list<T> linked(v.begin(), v.end());
  expect(TRaster(p, linked), shape, v, "list");
  const Sequence<T> sequence(v);
  expect(TRaster(p, sequence), shape, v, "sequence");
  const Litl::VecRaster<T, 1> other({Index(n)}, v);
  expect(TRaster(p, other), shape, v, "raster");
  const std::vector<short> narrow = [&] {
    std::vector<short> out(n);
    for (std::size_t i = 0; i < n; ++i) {
      out[i] = short(std::real(std::complex<double>(v[i])));
    }
    return out;
  }();
  expect(TRaster(p, narrow), shape, std::vector<T>(narrow.begin(), narrow.end()), "other-value-type");
  // Pointers
  expect(TRaster(p, v.data()), shape, v, "const-pointer");
  {
    std::vector<T> source = v;
    TRaster fromPtr(p, source.data());
    m.check(fromPtr.data() != source.data(), "pointer-copied");
    std::fill(source.begin(), source.end(), T(5));
    expect(fromPtr, shape, v, "pointer");
  }
  expect(TRaster(p, static_cast<T*>(nullptr)), shape, std::vector<T>(n), "null-pointer");
  // Container
  auto container = toContainer(v, static_cast<C*>(nullptr));
  const auto* address = &container[0];
  TRaster moved(p, std::move(container));
  expect(moved, shape, v, "moved-container");
  if (not fixedSize) {
    m.check(moved.data() == address, "moved-not-copied");
  }
  bool sameContainer = true;
  for (std::size_t i = 0; i < n; ++i) {
    sameContainer &= moved.container()[i] == v[i] && &moved.container()[i] == moved.data() + i;
  }
  m.check(sameContainer, "container-accessor");
  const auto* before = moved.data();
  C destination {};
  auto& returned = moved.moveTo(destination);
  m.check(&returned == &destination, "move-to");
  bool back = destination.size() == n;
  for (std::size_t i = 0; back && i < n; ++i) {
    back &= destination[i] == v[i];
  }
  m.check(back, "move-to");
  if (not fixedSize && !std::is_same<C, std::valarray<T>>::value) {
    m.check(&destination[0] == before, "move-to-not-copied");
  }
  // Sizes which do not match
  for (long delta : {-1l, 1l, r.range(1, 20), -r.range(1, n), r.pick(Vec {256, -256, 65536, -65536})}) {
    const long size = long(n) + delta;
    if (size < (std::is_same<C, std::valarray<T>>::value ? 1 : 0)) {
      continue; // An empty valarray has no first element
    }
    std::vector<T> wrong = freshes<T>(r, size);
    const std::vector<T> cwrong = wrong;
    const std::list<T> lwrong(wrong.begin(), wrong.end());
    const auto text = [&] { return cat("size ", size, " expected ", n); };
    m.check(vp::thrown([&] { TRaster out(p, wrong); }) != "none", "size-mismatch-iterable", text);
    m.check(vp::thrown([&] { TRaster out(p, cwrong); }) != "none", "size-mismatch-iterable", text);
    m.check(vp::thrown([&] { TRaster out(p, lwrong); }) != "none", "size-mismatch-iterable", text);
    if (not fixedSize) {
      m.check(vp::thrown([&] { TRaster out(p, toContainer(wrong, static_cast<C*>(nullptr))); }) != "none", "size-mismatch-container", text);
    }
    auto q = shape;
    q[r.range(0, q.size() - 1)] += delta > 0 ? 1 : -1;
    if (vp::product(q) > 0 && vp::product(q) != long(n)) {
      m.check(vp::thrown([&] { TRaster out(pos<N>(q), v); }) != "none", "size-mismatch-shape", [&] { return cat("shape ", q); });
      if (fixedSize && vp::product(q) != 0) {
        m.check(vp::thrown([&] { TRaster out(pos<N>(q)); }) != "none", "size-mismatch-array", [&] { return cat("shape ", q); });
        m.check(vp::thrown([&] { TRaster out(pos<N>(q), toContainer(v, static_cast<C*>(nullptr))); }) != "none", "size-mismatch-array", [&] { return cat("shape ", q); });
      }
    }
    m.count("mismatches tried");
  }
}

/// Histories of copies, moves, assignments and writes
template <typename TRaster>
void history(const Vec& shape0, bool fixedSize, int steps, vp::Rng& r, bool expectInit) {
  using T = typename TRaster::Value;
  auto& m = mon();
  struct Object {
    std::unique_ptr<TRaster> raster;
    Vec shape;
    std::vector<T> values;
    bool live;
  };
  std::vector<Object> pool;
  const auto make = [&] {
    auto shape = shape0;
    if (not fixedSize) {
      shape = vp::shapeBiased(r, N == -1 ? int(r.range(1, 4)) : int(N), 40);
    } else if (N > 1 && r.chance(2)) {
      std::reverse(shape.begin(), shape.end());
    }
    const auto v = freshes<T>(r, vp::product(shape));
    return Object {std::make_unique<TRaster>(pos<N>(shape), v), shape, v, true};
  };
  const auto one = [&]() -> Object& {
    return pool[r.range(0, pool.size() - 1)];
  };
  for (int i = 0; i < 3; ++i) {
    pool.push_back(make());
  }
  std::string log;
  for (int s = 0; s < steps; ++s) {
    auto& a = one();
    switch (r.range(0, 7)) {
      case 0:
        log = "construct";
        a = make();
        break;
      case 1: {
        log = "copy";
        auto& b = one();
        if (b.live) {
          a = Object {std::make_unique<TRaster>(*b.raster), b.shape, b.values, true};
        }
        break;
      }
      case 2: {
        log = "move";
        auto& b = one();
        if (b.live) {
          auto raster = std::make_unique<TRaster>(std::move(*b.raster));
          b.live = false;
          a = Object {std::move(raster), b.shape, b.values, true};
        }
        break;
      }
      case 3: {
        log = "assign";
        auto& b = one();
        if (b.live) {
          auto& out = (*a.raster = *b.raster);
          m.check(&out == a.raster.get(), "assignment-returns-this");
          a.shape = b.shape;
          a.values = b.values;
          a.live = true;
        }
        break;
      }
      case 4: {
        log = "move-assign";
        auto& b = one();
        if (b.live && &a != &b) {
          *a.raster = std::move(*b.raster);
          b.live = false;
          a.shape = b.shape;
          a.values = b.values;
          a.live = true;
        }
        break;
      }
      case 5:
        log = "self-assign";
        if (a.live) {
          auto& alias = *a.raster;
          *a.raster = alias;
        }
        break;
      default:
        log = "write";
        if (a.live) {
          const auto k = r.range(0, a.values.size() - 1);
          (*a.raster)[k] = a.values[k] = fresh<T>(r);
        }
    }
    m.count(log);
    for (std::size_t i = 0; i < pool.size(); ++i) {
      if (pool[i].live) {
        expect(*pool[i].raster, pool[i].shape, pool[i].values, "history");
        for (std::size_t j = 0; j < i; ++j) {
          m.check(not pool[j].live || pool[i].raster->data() != pool[j].raster->data(), "independent-copies");
          if (pool[j].live) {
            const bool equal = pool[i].shape == pool[j].shape && pool[i].values == pool[j].values;
            m.check((*pool[i].raster == *pool[j].raster) == equal, "copies-equal");
          }
        }
      }
    }
  }
}

/// Pointer rasters share the pointed data
template <typename T>
void pointers(const Vec& shape, const std::vector<T>& v, vp::Rng& r) {
  auto& m = mon();
  const auto p = pos<N>(shape);
  auto data = v;
  Litl::PtrRaster<T, N> view(p, data.data());
  expect(view, shape, v, "ptr-raster");
  m.check(view.data() == data.data(), "ptr-raster-shares");
  const auto copy = view;
  const auto k = r.range(0, v.size() - 1);
  data[k] = fresh<T>(r);
  m.check(view[k] == data[k] && copy[k] == data[k], "ptr-raster-shares");
  view[k] = fresh<T>(r);
  m.check(view[k] == data[k] && copy[k] == data[k], "ptr-raster-shares");
  auto moved = std::move(view);
  m.check(moved.data() == data.data(), "ptr-raster-shares");
  expect(moved, shape, data, "ptr-raster");
  auto data2 = freshes<T>(r, v.size());
  Litl::PtrRaster<T, N> other(p, data2.data());
  const auto kept = data;
  moved = other;
  m.check(moved.data() == data2.data() && data == kept, "ptr-raster-rebinds");
  const Litl::PtrRaster<const T, N> readOnly(p, data.data());
  expect(readOnly, shape, data, "const-ptr-raster");
  m.check(readOnly.data() == data.data(), "ptr-raster-shares");
  // A raster built from a view is a copy
  Litl::VecRaster<T, N> deep(p, other);
  m.check(deep.data() != data2.data(), "view-copied");
  expect(deep, shape, data2, "view-copied");
  // Comparison across holders
  m.check(deep == other && other == deep && !(deep != other), "equality-across-holders");
  data2[k] = T(1) + data2[k];
  m.check(deep != other && !(deep == other), "equality-across-holders");
}

template <typename TContainer, typename T>
void checkRasterize(TContainer&& container, const Vec& shape, const std::vector<T>& v, std::integral_constant<Index, 1>) {
  expect(Litl::rasterize(std::forward<TContainer>(container), shape[0]), shape, v, "rasterize");
}
template <typename TContainer, typename T>
void checkRasterize(TContainer&& container, const Vec& shape, const std::vector<T>& v, std::integral_constant<Index, 2>) {
  expect(Litl::rasterize(std::forward<TContainer>(container), shape[0], shape[1]), shape, v, "rasterize");
}
template <typename TContainer, typename T>
void checkRasterize(TContainer&& container, const Vec& shape, const std::vector<T>& v, std::integral_constant<Index, 3>) {
  expect(Litl::rasterize(std::forward<TContainer>(container), shape[0], shape[1], shape[2]), shape, v, "rasterize");
}
template <typename TContainer, typename T>
void checkRasterize(TContainer&&, const Vec&, const std::vector<T>&, std::integral_constant<Index, -1>) {}

template <typename T>
void rasterizes(const Vec& shape, const std::vector<T>& v) {
  constexpr std::integral_constant<Index, N> dim {};
  auto& m = mon();
  auto source = v;
  checkRasterize(source, shape, v, dim);
  m.check(source == v, "source-unchanged");
  const auto csource = v;
  checkRasterize(csource, shape, v, dim);
  checkRasterize(std::move(source), shape, v, dim);
  std::valarray<T> val(v.data(), v.size());
  checkRasterize(std::move(val), shape, v, dim);
  auto pointed = v;
  checkRasterize(pointed.data(), shape, v, dim);
  checkRasterize(csource.data(), shape, v, dim);
  if (N == 1) {
    auto raster = Litl::rasterize(pointed.data(), shape[0]);
    m.check(raster.data() == pointed.data(), "rasterize-pointer");
    raster[0] = T(3);
    m.check(pointed[0] == T(3), "rasterize-pointer");
    m.check(vp::thrown([&] { Litl::rasterize(csource, shape[0] + 1); }) != "none", "size-mismatch-rasterize");
    m.check(vp::thrown([&] { Litl::rasterize(std::vector<T>(v), shape[0] + 1); }) != "none", "size-mismatch-rasterize");
    m.check(vp::thrown([&] { Litl::rasterize(std::vector<T>(v), shape[0] - 1); }) != "none", "size-mismatch-rasterize");
  }
  const Litl::VecRaster<T, N> raster(pos<N>(shape), v);
  m.check(&Litl::rasterize(raster) == &raster, "rasterize-raster");
}

template <typename TSeq, typename T>
void sequencePaths(const std::vector<T>& v, bool fixedSize, vp::Rng& r) {
  using C = typename TSeq::Holder::Container;
  auto& m = mon();
  const auto n = v.size();
  const auto check = [&](const TSeq& s, const std::vector<T>& e, const char* key) {
    m.check(same(s, e), key, [&] { return cat("content ", list(s), " expected ", vp::show(e)); });
  };
  check(TSeq(n), std::vector<T>(n), "sequence-no-data");
  std::vector<T> vector = v;
  const std::list<T> linked(v.begin(), v.end());
  check(TSeq(vector), v, "sequence-iterable");
  check(TSeq(linked), v, "sequence-iterable");
  check(TSeq(n, v.data()), v, "sequence-pointer");
  check(TSeq(n, toContainer(v, static_cast<C*>(nullptr))), v, "sequence-container");
  m.check(vp::thrown([&] { TSeq s(n + 1, toContainer(v, static_cast<C*>(nullptr))); }) != "none", "sequence-size-mismatch");
  m.check(vp::thrown([&] { TSeq s(n - 1, toContainer(v, static_cast<C*>(nullptr))); }) != "none", "sequence-size-mismatch");
  if (fixedSize) {
    m.check(vp::thrown([&] { TSeq s(n + 1); }) != "none", "sequence-size-mismatch");
    vector.push_back(T(1));
    m.check(vp::thrown([&] { TSeq s(vector); }) != "none", "sequence-size-mismatch");
    check(TSeq(), std::vector<T>(n), "sequence-no-data");
  } else {
    m.check(TSeq().size() == 0, "sequence-empty");
  }
  TSeq a(linked);
  auto b = a;
  check(b, v, "sequence-copy");
  const auto k = r.range(0, n - 1);
  b[k] = T(1) + b[k];
  check(a, v, "sequence-independent");
  m.check(a != b && not(a == b), "sequence-equality");
  auto c = std::move(b);
  auto w = v;
  w[k] = T(1) + w[k];
  check(c, w, "sequence-move");
  a = c;
  check(a, w, "sequence-assign");
  m.check(a == c && not(a != c), "sequence-equality");
  auto& alias = a;
  a = alias;
  check(a, w, "sequence-self-assign");
  C out {};
  a.moveTo(out);
  bool ok = out.size() == n;
  for (std::size_t i = 0; ok && i < n; ++i) {
    ok &= out[i] == w[i];
  }
  m.check(ok, "sequence-move-to");
}

template <typename T>
void vectors(const std::vector<T>& values, vp::Rng& r) {
  auto& m = mon();
  const int dim = N == -1 ? 1 + values.size() % 4 : int(N);
  std::vector<T> v(dim);
  for (int i = 0; i < dim; ++i) {
    v[i] = values[i % values.size()];
  }
  using V = Litl::Vector<T, N>;
  const V a(v);
  m.check(same(a, v), "vector-iterable");
  V b = a;
  b[0] = b[0] + T(1);
  m.check(same(a, v) && a != b && not(a == b), "vector-copy");
  V c(std::move(b));
  m.check(c[0] == v[0] + T(1) && std::equal(c.begin() + 1, c.end(), v.begin() + 1, v.end()), "vector-move");
  c = a;
  m.check(c == a && same(c, v), "vector-assign");
  const std::list<T> linked(v.begin(), v.end());
  m.check(same(V(linked), v), "vector-iterable");
  if (dim == 2) {
    m.check(same(V {v[0], v[1]}, v), "vector-list");
  }
  if (dim == 1) {
    m.check(same(V {v[0]}, v), "vector-list");
  }
  if (dim == 3) {
    m.check(same(V {v[0], v[1], v[2]}, v), "vector-list");
  }
  if (dim == 4) {
    m.check(same(V {v[0], v[1], v[2], v[3]}, v), "vector-list");
  }
}

/// Lists of several lengths, whatever the holder
template <typename TRaster>
void lists(vp::Rng& r) {
  using T = typename TRaster::Value;
  const auto a = fresh<T>(r), b = fresh<T>(r), c = fresh<T>(r), d = fresh<T>(r), e = fresh<T>(r), f = fresh<T>(r);
  const auto s = [&](long x, long y) {
    Vec shape(N == -1 ? 3 : N, 1);
    shape[0] = x;
    shape.back() *= y;
    return shape;
  };
  const auto check = [&](const Vec& shape, std::initializer_list<T> l) {
    mon().begin(cat("list ", typeid(TRaster).name(), shape, " ", vp::show(std::vector<T>(l))), l.size() > 1);
    expect(TRaster(pos<N>(shape), l), shape, std::vector<T>(l), "initializer-list");
    auto q = shape;
    q.back() += 1;
    mon().check(vp::thrown([&] { TRaster out(pos<N>(q), l); }) != "none", "size-mismatch-list", [&] { return cat("shape ", q); });
    q.back() -= 2;
    if (q.back() > 0) {
      mon().check(vp::thrown([&] { TRaster out(pos<N>(q), l); }) != "none", "size-mismatch-list", [&] { return cat("shape ", q); });
    }
  };
  check(s(1, 1), {a});
  check(s(2, 1), {a, b});
  check(N == 1 ? s(3, 1) : s(1, 3), {a, b, c});
  check(N == 1 ? s(4, 1) : s(2, 2), {a, b, c, d});
  check(N == 1 ? s(6, 1) : s(2, 3), {a, b, c, d, e, f});
}

template <typename T>
void drive(int cases, long maxSize) {
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const auto shape = vp::shapeBiased(r, vp::dimOf(N, r, 4), maxSize);
    const auto v = freshes<T>(r, vp::product(shape));
    const auto text = cat(" ", vp::typeName<T>(), " N=", N, " shape=", shape, " ", vp::show(v));
    const bool nontrivial = v.size() > 1;
    mon().begin("vector" + text, nontrivial);
    stdPaths<Litl::VecRaster<T, N>>(shape, v, false, r);
    mon().begin("valarray" + text, nontrivial);
    stdPaths<Litl::ValRaster<T, N>>(shape, v, false, r);
    mon().begin("allocator" + text, nontrivial);
    stdPaths<Litl::VecRaster<T, N, CountingAllocator<T>>>(shape, v, false, r);
    mon().check(held == 0, "allocator-balance");
    Vec shape12(shape.size(), 1);
    shape12[0] = shape.size() == 1 ? 12 : 4;
    shape12.back() = shape.size() == 1 ? 12 : 3;
    const auto v12 = freshes<T>(r, 12);
    mon().begin(cat("array ", vp::typeName<T>(), shape12, vp::show(v12)));
    stdPaths<Litl::ArrRaster<T, 12, N>>(shape12, v12, true, r);
    mon().begin("pointer" + text, nontrivial);
    pointers<T>(shape, v, r);
    mon().begin("rasterize" + text, nontrivial);
    rasterizes<T>(shape, v);
    mon().begin("sequence" + text, nontrivial);
    sequencePaths<Sequence<T>>(v, false, r);
    sequencePaths<Sequence<T, Litl::StdHolder<std::valarray<T>>>>(v, false, r);
    sequencePaths<Sequence<T, Litl::StdHolder<std::array<T, 12>>>>(v12, true, r);
    mon().begin("vector" + text, nontrivial);
    vectors<T>(v, r);
    mon().begin("history vector" + text, nontrivial);
    history<Litl::VecRaster<T, N>>(shape, false, 25, r, true);
    mon().begin("history aligned" + text, nontrivial);
    history<Litl::AlignedRaster<T, N>>(shape, false, 25, r, false);
    mon().begin("history valarray" + text, nontrivial);
    history<Litl::ValRaster<T, N>>(shape, false, 25, r, true);
    mon().begin(cat("history array ", vp::typeName<T>(), shape12, vp::show(v12)));
    history<Litl::ArrRaster<T, 12, N>>(shape12, true, 25, r, true);
    lists<Litl::VecRaster<T, N>>(r);
    lists<Litl::ValRaster<T, N>>(r);
    lists<Litl::AlignedRaster<T, N>>(r);
  }
}

template <typename T>
void large(int cases) {
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const auto shape = vp::shapeBiased(r, vp::dimOf(N, r, 4), r.pick(Vec {2000, 70000, 140000}));
    const auto v = freshes<T>(r, vp::product(shape));
    const auto text = cat(" ", vp::typeName<T>(), " N=", N, " large shape=", shape, " ", vp::show(v));
    mon().begin("vector" + text, true);
    stdPaths<Litl::VecRaster<T, N>>(shape, v, false, r);
    mon().begin("valarray" + text, true);
    stdPaths<Litl::ValRaster<T, N>>(shape, v, false, r);
    mon().begin("pointer" + text, true);
    pointers<T>(shape, v, r);
    mon().begin("rasterize" + text, true);
    rasterizes<T>(shape, v);
    mon().begin("sequence" + text, true);
    sequencePaths<Sequence<T>>(v, false, r);
    Litl::AlignedRaster<T, N> aligned(pos<N>(shape), v);
    expect(aligned, shape, v, "aligned");
    const auto copy = aligned;
    const auto moved = std::move(aligned);
    expect(copy, shape, v, "aligned-copy");
    expect(moved, shape, v, "aligned-move");
    auto changed = moved;
    changed[pos<N>(Vec(shape.size(), 0))] += T(1);
    mon().check(copy == moved && changed != copy, "equality-large");
    changed = copy;
    changed[v.size() - 1] += T(1);
    mon().check(changed != copy && moved == copy, "equality-large");
  }
}
SCENARIO(large_ints) { large<int>(4); }
SCENARIO(large_doubles) { large<double>(4); }
SCENARIO(ints) { drive<int>(100, 120); }
SCENARIO(bytes) { drive<unsigned char>(100, 120); }
SCENARIO(doubles) { drive<double>(60, 300); }
SCENARIO(complexes) { drive<std::complex<float>>(80, 60); }

VP_MAIN
