// BUILD: name=fixed san=asan parts=6
// BUILD: name=dynamic san=asan define=DYNAMIC
// RULE: A case is a parent raster (type, holder, boundary-biased shape) and a history of views: slices of every dimension,
//   sections, subrasters and pointer rasters of random in-domain regions. Addresses seen through the view are compared
//   with the row-major selection; then values are written through the view or the parent, and the whole parent is compared
//   with a shadow copy. Non-trivial: parent size > 1. Distinct: by parent and regions.
#include "litl.hpp"

#include <sys/mman.h>

#ifdef DYNAMIC
constexpr Index N = -1;
#else
constexpr Index N = PART + 1;
#endif

template <typename T>
struct Shadow {
  std::vector<T> values;
  Vec shape;
};

static thread_local long counter = 0;
template <typename T>
T fresh() {
  return T(++counter % 120 + 1);
}

/// Indices in the parent of the elements of a region, row-major
static std::vector<long> select(const Vec& shape, const Vec& lo, const Vec& hi) {
  std::vector<long> out;
  for (const auto& p : vp::positions(lo, hi)) {
    out.push_back(vp::refIndex(shape, p));
  }
  return out;
}

template <typename TRaster, typename T>
void checkParent(const TRaster& raster, const Shadow<T>& shadow, const char* key) {
  mon().check(std::equal(raster.begin(), raster.end(), shadow.values.begin(), shadow.values.end()), key);
}

/// Iterate over a view, bounded
template <typename TView>
auto addresses(TView& view, std::size_t limit) {
  std::vector<decltype(&*begin(view))> out;
  for (auto it = begin(view); it != end(view) && out.size() <= limit; ++it) {
    out.push_back(&*it);
  }
  return out;
}

/// Check a pointer raster view and write through it.
template <typename TView, typename TRaster, typename T>
void examinePtr(TView&& view, TRaster& raster, Shadow<T>& shadow, const Vec& viewShape, const std::vector<long>& sel, vp::Rng& r, const char* key) {
  auto& m = mon();
  m.check(toVec(view.shape()) == viewShape, key, [&] { return cat("view shape ", toVec(view.shape()), " expected ", viewShape); });
  m.check(view.size() == sel.size(), key, [&] { return cat("view size ", view.size(), " expected ", sel.size()); });
  if (view.size() != sel.size()) {
    return;
  }
  bool same = true;
  for (std::size_t i = 0; i < sel.size(); ++i) {
    same &= &view[i] == raster.data() + sel[i] && view.begin() + i == raster.data() + sel[i];
  }
  m.check(same, key, [&] { return "addresses"; });
  if (not same) {
    return;
  }
  long i = 0;
  for (const auto& p : view.domain()) {
    m.check(i < long(sel.size()) && &view[p] == raster.data() + sel[i], key, [&] { return "positions"; });
    ++i;
  }
  m.check(i == long(sel.size()), key, [&] { return "positions"; });
  // Write through the parent, read through the view
  const auto k = r.range(0, sel.size() - 1);
  raster.data()[sel[k]] = shadow.values[sel[k]] = fresh<T>();
  m.check(view[k] == shadow.values[sel[k]], key, [&] { return "read"; });
}

template <typename TView, typename TRaster, typename T>
void writePtr(TView&& view, TRaster& raster, Shadow<T>& shadow, const std::vector<long>& sel, vp::Rng& r, const char* key) {
  if (view.size() != sel.size()) {
    return;
  }
  const auto v = fresh<T>();
  switch (r.range(0, 4)) {
    case 0:
      view.fill(v);
      for (auto s : sel) {
        shadow.values[s] = v;
      }
      break;
    case 1: {
      const auto k = r.range(0, sel.size() - 1);
      view[k] = v;
      shadow.values[sel[k]] = v;
      break;
    }
    case 2:
      for (auto& e : view) {
        e = v;
      }
      for (auto s : sel) {
        shadow.values[s] = v;
      }
      break;
    case 3: {
      long n = 0;
      view.generate([&] {
        return T(++n % 100);
      });
      n = 0;
      for (auto s : sel) {
        shadow.values[s] = T(++n % 100);
      }
      break;
    }
    default: {
      auto copy = view; // A copy of the view shares the data
      copy.back() = v;
      shadow.values[sel.back()] = v;
    }
  }
  checkParent(raster, shadow, key);
  mon().count("writes through views");
}

/// Slices of dimension M
template <Index M, typename TRaster, typename T>
std::enable_if_t<(N != -1 && M > N)> slices(TRaster&, Shadow<T>&, const Vec&, const Vec&, vp::Rng&) {}
template <Index M, typename TRaster, typename T>
std::enable_if_t<(N == -1 || M <= N)> slices(TRaster& raster, Shadow<T>& shadow, const Vec& lo, const Vec& hi, vp::Rng& r) {
  auto& m = mon();
  const int dim = lo.size();
  if (M > dim) {
    return;
  }
  bool contiguous = true;
  for (int i = 0; i < M - 1; ++i) {
    contiguous &= lo[i] == 0 && hi[i] == shadow.shape[i] - 1;
  }
  for (int i = M; i < dim; ++i) {
    contiguous &= lo[i] == hi[i];
  }
  const auto region = vp::box<N>(lo, hi);
  const auto& craster = raster;
  const auto text = [&] { return cat("M=", M, " region ", lo, hi); };
  m.check(raster.template isContiguous<M>(region) == contiguous, "contiguity", text);
  if (not contiguous) {
    m.check(vp::thrown([&] { raster.template slice<M>(region); }) == "Exception", "slice-refused", text);
    m.check(vp::thrown([&] { craster.template slice<M>(region); }) == "Exception", "slice-refused", text);
    m.count("slices refused");
    return;
  }
  m.count("slices accepted");
  const Vec shape = [&] {
    Vec out(M);
    for (int i = 0; i < M; ++i) {
      out[i] = hi[i] - lo[i] + 1;
    }
    return out;
  }();
  const auto sel = select(shadow.shape, lo, hi);
  auto view = raster.template slice<M>(region);
  const auto cview = craster.template slice<M>(region);
  examinePtr(view, raster, shadow, shape, sel, r, "slice");
  examinePtr(cview, raster, shadow, shape, sel, r, "const-slice");
  writePtr(view, raster, shadow, sel, r, "slice-write");
  m.check(std::equal(view.begin(), view.end(), cview.begin(), cview.end()), "const-slice");
}

template <Index M, typename TRaster, typename T>
std::enable_if_t<M == 1> flatSections(TRaster&, Shadow<T>&, vp::Rng&) {}
template <Index M, typename TRaster, typename T>
std::enable_if_t<M != 1> flatSections(TRaster& raster, Shadow<T>& shadow, vp::Rng& r) {
  const int dim = shadow.shape.size();
  if (dim == 1) {
    return;
  }
  const auto& craster = raster;
  Vec lo(dim, 0), hi = vp::minus1(shadow.shape);
  const Vec shape(shadow.shape.begin(), shadow.shape.end() - 1);
  const long last = shadow.shape[dim - 1];
  for (long i : {0l, last - 1, r.range(0, last - 1)}) {
    lo[dim - 1] = hi[dim - 1] = i;
    const auto sel = select(shadow.shape, lo, hi);
    auto view = raster.section(i);
    static_assert(decltype(view)::Dimension == (N == -1 ? -1 : N - 1), "Section dimension");
    examinePtr(view, raster, shadow, shape, sel, r, "section");
    examinePtr(craster.section(i), raster, shadow, shape, sel, r, "const-section");
    writePtr(view, raster, shadow, sel, r, "section-write");
  }
}

template <typename TRaster, typename T>
void sections(TRaster& raster, Shadow<T>& shadow, vp::Rng& r) {
  const int dim = shadow.shape.size();
  const auto& craster = raster;
  Vec lo(dim, 0), hi = vp::minus1(shadow.shape);
  auto shape = shadow.shape;
  const long last = shadow.shape[dim - 1];
  const long a = r.range(0, last - 1), b = r.range(a, last - 1);
  for (auto s : {std::make_pair(0l, last - 1), std::make_pair(a, b), std::make_pair(last - 1, last - 1)}) {
    lo[dim - 1] = s.first;
    hi[dim - 1] = s.second;
    shape[dim - 1] = s.second - s.first + 1;
    const auto sel = select(shadow.shape, lo, hi);
    auto view = raster.section(s.first, s.second);
    examinePtr(view, raster, shadow, shape, sel, r, "thick-section");
    examinePtr(craster.section(s.first, s.second), raster, shadow, shape, sel, r, "const-thick-section");
    writePtr(view, raster, shadow, sel, r, "thick-section-write");
  }
}

template <typename TRaster, typename T>
void subrasters(TRaster& raster, Shadow<T>& shadow, const Vec& lo, const Vec& hi, vp::Rng& r) {
  auto& m = mon();
  const auto& craster = raster;
  const int dim = lo.size();
  const auto sel = select(shadow.shape, lo, hi);
  const auto region = vp::box<N>(lo, hi);
  const auto text = [&] { return cat("region ", lo, hi); };
  auto view = raster.subraster(region);
  const auto cview = craster.subraster(region);
  Vec shape(dim);
  for (int i = 0; i < dim; ++i) {
    shape[i] = hi[i] - lo[i] + 1;
  }
  m.check(toVec(view.shape()) == shape && toVec(cview.shape()) == shape, "subraster-shape", text);
  m.check(view.size() == sel.size() && cview.size() == sel.size(), "subraster-size", text);
  m.check(view.region() == region && &view.raster() == &raster && &cview.raster() == &raster, "subraster-accessors", text);
  const auto expected = [&] {
    std::vector<const T*> out;
    for (auto s : sel) {
      out.push_back(raster.data() + s);
    }
    return out;
  }();
  const auto seen = addresses(view, sel.size());
  const auto cseen = addresses(cview, sel.size());
  m.check(seen.size() == sel.size() && std::equal(seen.begin(), seen.end(), expected.begin()), "subraster-iteration", [&] { return text() + cat(" visited ", seen.size(), " expected ", sel.size()); });
  m.check(cseen.size() == sel.size() && std::equal(cseen.begin(), cseen.end(), expected.begin()), "const-subraster-iteration", [&] { return text() + cat(" visited ", cseen.size(), " expected ", sel.size()); });
  m.count("subraster elements visited", seen.size());
  std::size_t k = 0;
  const auto last = end(view);
  for (auto it = begin(view); it != last && k < sel.size(); ++k) {
    const auto copy = it;
    m.check(copy == it, "subraster-iterator");
    if (k + 1 < sel.size() && k < 40) { // A copy survives its original
      auto original = std::make_unique<std::decay_t<decltype(it)>>(begin(view));
      auto survivor = *original;
      original.reset();
      for (std::size_t j = 0; j <= k; ++j) {
        ++survivor;
      }
      m.check(&*survivor == expected[k + 1], "iterator-survivor", text);
    }
    m.check(&*it++ == expected[k] && &*copy == expected[k] && copy.operator->() == expected[k], "subraster-post-increment", text);
    m.check(copy != it, "subraster-iterator");
  }
  m.check(k == sel.size(), "subraster-iteration", text);
  for (int i = 0; i < 5; ++i) { // Positions are relative to the region
    Vec p(dim), q(dim);
    for (int j = 0; j < dim; ++j) {
      q[j] = r.range(0, shape[j] - 1);
      p[j] = lo[j] + q[j];
    }
    const auto* a = raster.data() + vp::refIndex(shadow.shape, p);
    m.check(&view[pos<N>(q)] == a && &cview[pos<N>(q)] == a, "subraster-access", text);
  }
  if (seen.size() != sel.size() || !std::equal(seen.begin(), seen.end(), expected.begin())) {
    return;
  }
  for (auto& e : view) {
    e = fresh<T>();
  }
  counter -= sel.size();
  for (auto s : sel) {
    shadow.values[s] = fresh<T>();
  }
  checkParent(raster, shadow, "subraster-write");
  m.count("writes through views");
  // Copies of the view refer to the same parent
  auto copy = view;
  const auto v = fresh<T>();
  copy[pos<N>(Vec(dim, 0))] = v;
  shadow.values[sel[0]] = v;
  checkParent(raster, shadow, "subraster-write");
}

/// Regions whose length is not positive along an axis
template <Index M, typename TRaster, typename T>
std::enable_if_t<(N != -1 && M > N)> inverted(TRaster&, Shadow<T>&, const Vec&, const Vec&, int) {}
template <Index M, typename TRaster, typename T>
std::enable_if_t<(N == -1 || M <= N)> inverted(TRaster& raster, Shadow<T>& shadow, const Vec& lo, const Vec& hi, int axis) {
  if (M > Index(lo.size()) || axis == M - 1) {
    return;
  }
  const auto& craster = raster;
  const auto region = vp::box<N>(lo, hi);
  const auto text = [&] { return cat("M=", M, " shape ", shadow.shape, " region ", lo, hi); };
  mon().check(not raster.template isContiguous<M>(region), "contiguity", text);
  mon().check(vp::thrown([&] { raster.template slice<M>(region); }) == "Exception", "slice-refused", text);
  mon().check(vp::thrown([&] { craster.template slice<M>(region); }) == "Exception", "slice-refused", text);
  mon().count("slices of inverted regions refused");
}

template <typename T, typename TRaster>
void examine(TRaster& raster, const Vec& shape, vp::Rng& r) {
  Shadow<T> shadow {std::vector<T>(vp::product(shape)), shape};
  for (std::size_t i = 0; i < shadow.values.size(); ++i) {
    raster[i] = shadow.values[i] = fresh<T>();
  }
  const int dim = shape.size();
  sections(raster, shadow, r);
  flatSections<N>(raster, shadow, r);
  for (int k = 0; k < 14; ++k) {
    // Regions which are full, flat or partial along each axis, biased towards contiguous ones
    Vec lo(dim), hi(dim);
    const int d = r.range(0, dim);
    for (int i = 0; i < dim; ++i) {
      const int mode = r.chance(4) ? r.range(0, 2) : i < d - 1 ? 0 : i == d - 1 ? 2 : 1;
      lo[i] = mode == 0 ? 0 : r.range(0, shape[i] - 1);
      hi[i] = mode == 0 ? shape[i] - 1 : mode == 1 ? lo[i] : r.range(lo[i], shape[i] - 1);
    }
    slices<1>(raster, shadow, lo, hi, r);
    slices<2>(raster, shadow, lo, hi, r);
    slices<3>(raster, shadow, lo, hi, r);
    slices<4>(raster, shadow, lo, hi, r);
    subrasters(raster, shadow, lo, hi, r);
    // Length 0 or less along an axis: contiguous only if this is the last axis of the slice
    const int i = r.range(0, dim - 1);
    std::swap(lo[i], hi[i]);
    hi[i] -= lo[i] == hi[i];
    inverted<1>(raster, shadow, lo, hi, i);
    inverted<2>(raster, shadow, lo, hi, i);
    inverted<3>(raster, shadow, lo, hi, i);
  }
  // A pointer raster on the parent data
  Litl::PtrRaster<T, N> view(raster.shape(), raster.data());
  std::vector<long> sel(shadow.values.size());
  std::iota(sel.begin(), sel.end(), 0l);
  examinePtr(view, raster, shadow, shape, sel, r, "ptr-raster");
  writePtr(view, raster, shadow, sel, r, "ptr-raster-write");
  const Litl::PtrRaster<const T, N> cview(raster.shape(), raster.data());
  examinePtr(cview, raster, shadow, shape, sel, r, "const-ptr-raster");
  // Views of views
  Vec lo(dim, 0);
  subrasters(view, shadow, lo, vp::minus1(shape), r);
  sections(view, shadow, r);
  checkParent(raster, shadow, "views-of-views");
}

template <typename T>
void drive(int cases, long maxSize) {
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const auto shape = vp::shapeBiased(r, vp::dimOf(N, r, 6), maxSize);
    const auto p = pos<N>(shape);
    const auto text = cat(" ", vp::typeName<T>(), " N=", N, " shape=", shape, " history ", r.s % 1000);
    switch (r.range(0, 3)) {
      case 0: {
        mon().begin("VecRaster" + text, vp::product(shape) > 1);
        Litl::VecRaster<T, N> v(p);
        examine<T>(v, shape, r);
        break;
      }
      case 1: {
        mon().begin("AlignedRaster" + text, vp::product(shape) > 1);
        Litl::AlignedRaster<T, N> v(p);
        examine<T>(v, shape, r);
        break;
      }
      case 2: {
        mon().begin("PtrRaster" + text, vp::product(shape) > 1);
        std::unique_ptr<T[]> data(new T[vp::product(shape)]);
        Litl::PtrRaster<T, N> v(p, data.get());
        examine<T>(v, shape, r);
        break;
      }
      default: {
        mon().begin("ValRaster" + text, vp::product(shape) > 1);
        Litl::ValRaster<T, N> v(p);
        examine<T>(v, shape, r);
      }
    }
  }
}

template <typename TRaster, typename F, std::enable_if_t<TRaster::Dimension != 1>* = nullptr>
void hugeSection(TRaster& raster, F&& is, long i) {
  auto shape = toVec(raster.shape());
  if (shape.size() > 1) {
    const auto last = shape.back();
    shape.pop_back();
    is(raster.section(i), "huge-section", i * (long(raster.size()) / last), shape);
  }
}
template <typename TRaster, typename F, std::enable_if_t<TRaster::Dimension == 1>* = nullptr>
void hugeSection(TRaster&, F&&, long) {}

template <Index M, typename TRaster, typename F>
std::enable_if_t<(N != -1 && M > N)> hugeSlices(TRaster&, F&&, const Vec&, const Vec&, const Vec&) {}
template <Index M, typename TRaster, typename F>
std::enable_if_t<(N == -1 || M <= N)> hugeSlices(TRaster& raster, F&& is, const Vec& lo, const Vec& hi, const Vec& extent) {
  const auto shape = toVec(raster.shape());
  bool contiguous = M <= Index(shape.size());
  for (std::size_t i = 0; i < extent.size(); ++i) {
    contiguous &= extent[i] == (Index(i) < M - 1 ? shape[i] : Index(i) < M ? extent[i] : 1);
  }
  if (contiguous) {
    mon().count("far slices");
    is(raster.template slice<M>(vp::box<N>(lo, hi)), "huge-slice", vp::refIndex(shape, lo), Vec(extent.begin(), extent.begin() + M));
  }
}

SCENARIO(int_views) { drive<int>(60, 300); }
SCENARIO(byte_views) { drive<unsigned char>(60, 100); }
SCENARIO(double_views) { drive<double>(10, 3000); }

/// Views of a raster which is larger than memory: addresses only
SCENARIO(huge_views) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 40 * m.scale; ++k) {
    const int dim = vp::dimOf(N, r, 5);
    Vec shape(dim);
    long left = 1l << 36, size = 1;
    for (int i = 0; i < dim; ++i) {
      shape[i] = r.chance(4) ? r.range(1, 3) : r.range(1, std::max(1l, std::min(left, r.pick(Vec {70000, 5000000000, 300}))));
      left /= shape[i];
      size *= shape[i];
    }
    m.begin(cat("N=", N, " huge ", shape), true);
    void* const memory = mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (memory == MAP_FAILED) {
      m.count("no address space");
      continue;
    }
    char* const data = static_cast<char*>(memory);
    Litl::PtrRaster<char, N> raster(pos<N>(shape), data);
    const auto& craster = raster;
    const auto is = [&](auto&& view, const char* key, long offset, const Vec& expected) {
      const auto text = [&] { return cat("shape ", shape, " offset ", view.data() - data, " expected ", offset, " view ", toVec(view.shape()), " expected ", expected); };
      m.check(view.data() == data + offset && toVec(view.shape()) == expected && long(view.size()) == vp::product(expected), key, text);
    };
    for (int j = 0; j < 5; ++j) {
      const auto last = shape[dim - 1];
      const long a = r.chance(3) ? last - 1 : r.range(0, last - 1), b = r.range(a, last - 1);
      auto expected = shape;
      expected[dim - 1] = b - a + 1;
      is(raster.section(a, b), "huge-section", a * (size / last), expected);
      is(craster.section(a, b), "huge-section", a * (size / last), expected);
      hugeSection(raster, is, a);
      // A few pixels anywhere, and long lines
      Vec lo(dim), hi(dim), extent(dim);
      long budget = 1;
      for (int i = 0; i < dim; ++i) {
        lo[i] = r.chance(4) ? shape[i] - 1 : r.range(0, shape[i] - 1);
        hi[i] = std::min(lo[i] + r.range(0, 4), shape[i] - 1);
        extent[i] = hi[i] - lo[i] + 1;
        budget *= extent[i];
      }
      const auto view = raster.subraster(vp::box<N>(lo, hi));
      m.check(long(view.size()) == budget, "huge-subraster", [&] { return cat("shape ", shape, " from ", lo, " to ", hi, ": ", view.size()); });
      const auto positions = vp::positions(lo, hi);
      std::size_t n = 0;
      bool same = true;
      for (auto it = begin(view); it != end(view) && n < positions.size() && same; ++it, ++n) {
        same = &*it == data + vp::refIndex(shape, positions[n]);
      }
      m.check(same && n == positions.size(), "huge-subraster", [&] { return cat("shape ", shape, " from ", lo, " to ", hi, " at ", n); });
      m.count("far elements visited", n);
      // Whole lines, then one partial one
      const int axis = r.range(0, dim - 1);
      for (int i = 0; i < dim; ++i) {
        if (i < axis) {
          lo[i] = 0;
          hi[i] = shape[i] - 1;
        } else if (i > axis) {
          hi[i] = lo[i];
        }
        extent[i] = hi[i] - lo[i] + 1;
      }
      hi[axis] = r.range(lo[axis], shape[axis] - 1);
      extent[axis] = hi[axis] - lo[axis] + 1;
      const auto region = vp::box<N>(lo, hi);
      const auto whole = raster.subraster(region);
      m.check(long(whole.size()) == vp::product(extent), "huge-subraster", [&] { return cat("shape ", shape, " from ", lo, " to ", hi, ": ", whole.size()); });
      m.check(&*begin(whole) == data + vp::refIndex(shape, lo), "huge-subraster", [&] { return cat("shape ", shape, " first ", lo); });
      hugeSlices<1>(raster, is, lo, hi, extent);
      hugeSlices<2>(raster, is, lo, hi, extent);
      hugeSlices<3>(raster, is, lo, hi, extent);
      hugeSlices<4>(raster, is, lo, hi, extent);
    }
    munmap(memory, size);
  }
}

VP_MAIN
