// BUILD: name=world san=asan parts=5 libs=fftw3,dl
// EVERY: san=none opt=0 memcheck=1 scale=0.02 prefix=memcheck_ not=C17,C23,C25,C26 timeout=200
// RULE: A case is a random history over a pool of live objects (owning and aligned rasters of several dimensions, sequences, user
//   blocks and pointer rasters over them): creations, copies, moves, assignments, self-assignments, extractions, element-wise
//   operations, views, samplings, filterings, interpolations, transforms, statistics and destructions in any order. After each
//   operation, every live object is compared with its shadow copy, so that any effect on something else is seen; after the history,
//   the allocated bytes are those of the beginning. Builds named memcheck_* are the workloads of the other properties run under
//   Valgrind, which tracks the use of uninitialized values (on the stack too). Non-trivial: at least 10 operations. Distinct: by the
//   log of operations.
#include "litl.hpp"

#include "LitlContainer/AlignedBuffer.h"
#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Sampling.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTransforms/StructuringElement.h"

#include <list>

using namespace Litl;

#if PART == 0
using T = int;
#elif PART == 1
using T = double;
#elif PART == 2
using T = unsigned char;
#elif PART == 3
using T = float;
#else
using T = long;
#endif

using Values = std::vector<T>;

static T any(vp::Rng& r) {
  return vp::smallValue<T>(r, -9, 99);
}
static Values values(vp::Rng& r, long n) {
  Values out(n);
  for (auto& e : out) {
    e = any(r);
  }
  return out;
}
/// Keep the values small: all the computations are exact
static T reduced(T v) {
  return T(long(v) % 101);
}

template <Index N, typename H>
struct Slot {
  Raster<T, N, H> raster;
  Vec shape;
  Values shadow;

  void verify(const char* key) {
    auto& m = mon();
    bool same = toVec(raster.shape()) == shape && raster.size() == shadow.size();
    m.check(same, key, [&] { return cat("shape ", toVec(raster.shape()), " expected ", shape); });
    for (std::size_t i = 0; same && i < shadow.size(); ++i) {
      same = raster[i] == shadow[i];
      if (not same) {
        m.report(key, cat("element ", i, " is ", vp::show(raster[i]), " expected ", vp::show(shadow[i])));
      }
    }
  }
};

/// Memory of the user, with margins
struct Block {
  std::unique_ptr<T[]> data;
  Values shadow;
};

template <Index N, typename H>
using Slots = std::list<Slot<N, H>>;
using VecHolder = StdHolder<std::vector<T>>;
using Aligned = AlignedBuffer<T>;
using Valarray = StdHolder<std::valarray<T>>;

struct World {
  vp::Rng& r;
  std::string log;
  long operations = 0;
  Slots<1, VecHolder> v1;
  Slots<2, VecHolder> v2;
  Slots<3, VecHolder> v3;
  Slots<-1, VecHolder> vn;
  Slots<2, Aligned> a2;
  Slots<-1, Aligned> an;
  Slots<3, Valarray> w3;
  std::list<Block> blocks;

  explicit World(vp::Rng& rng) : r(rng) {}

  void note(const std::string& text) {
    ++operations;
    log += text + "; ";
    if (log.size() > 1000) {
      log = log.substr(log.size() - 1000);
    }
    auto& m = mon();
    if (m.current) { // For crashes
      std::strncpy(m.current, log.c_str(), 2000);
    }
    m.caseText = log;
    m.count("operations");
  }

  void verify() {
    const auto each = [](auto& slots) {
      for (auto& s : slots) {
        s.verify("live-object");
      }
    };
    each(v1), each(v2), each(v3), each(vn), each(a2), each(an), each(w3);
    for (auto& b : blocks) {
      mon().check(std::equal(b.shadow.begin(), b.shadow.end(), b.data.get()), "user-block");
    }
  }

  template <typename L>
  typename L::iterator pick(L& slots) {
    return std::next(slots.begin(), r.range(0, slots.size() - 1));
  }

  Vec newShape(int dim) {
    return vp::shapeBiased(r, dim, vp::upTo(r, r.pick<long>({1, 6, 30, 120}), 3000, 60));
  }

  // ---- life cycle

  template <Index N, typename H>
  void create(Slots<N, H>& slots, const char* name) {
    using R = Raster<T, N, H>;
    const auto shape = newShape(vp::dimOf(N, r, 4));
    const auto n = vp::product(shape);
    switch (r.range(0, 3)) {
      case 0:
        note(cat("create ", name, shape));
        slots.push_back({R(pos<N>(shape)), shape, Values(n)});
        if (std::is_same<H, Aligned>::value) {
          slots.back().raster.fill(T(0)); // Not initialized
        }
        break;
      case 1: {
        note(cat("create from values ", name, shape));
        const auto v = values(r, n);
        slots.push_back({R(pos<N>(shape), v), shape, v});
        break;
      }
      case 2: {
        note(cat("create from list ", name, shape));
        const auto v = values(r, n);
        const std::list<T> linked(v.begin(), v.end());
        slots.push_back({R(pos<N>(shape), linked), shape, v});
        break;
      }
      default: {
        note(cat("generate ", name, shape));
        const auto seed = r.next() >> 40;
        Slot<N, H> slot {R(pos<N>(shape)), shape, {}};
        slot.raster.generate(UniformNoise<T>(T(0), T(50), seed));
        UniformNoise<T> twin(T(0), T(50), seed);
        for (long i = 0; i < n; ++i) {
          slot.shadow.push_back(reduced(twin()));
        }
        slot.raster.apply(reduced);
        slots.push_back(std::move(slot));
      }
    }
  }

  template <Index N, typename H>
  void lifeCycle(Slots<N, H>& slots, const char* name) {
    auto a = pick(slots), b = pick(slots);
    switch (r.range(0, 5)) {
      case 0:
        note(cat("copy ", name));
        slots.push_back(Slot<N, H>(*a));
        break;
      case 1:
        note(cat("assign ", name, a == b ? " to itself" : ""));
        *a = *static_cast<const Slot<N, H>*>(&*b);
        break;
      case 2: {
        note(cat("move ", name));
        Slot<N, H> moved(std::move(*a));
        slots.erase(a);
        slots.push_back(std::move(moved));
        break;
      }
      case 3:
        if (a != b) {
          note(cat("move-assign ", name));
          *a = std::move(*b);
          slots.erase(b);
        }
        break;
      case 4:
        note(cat("swap ", name));
        if (a != b) {
          std::swap(*a, *b);
        }
        break;
      default:
        note(cat("destroy ", name));
        slots.erase(a);
    }
  }

  // ---- element-wise

  template <Index N, typename H>
  void elementWise(Slots<N, H>& slots, const char* name) {
    auto a = pick(slots), b = pick(slots);
    auto& x = a->raster;
    auto& s = a->shadow;
    const long n = s.size(), i = r.range(0, n - 1);
    const T v = any(r);
    const auto each = [&](const std::function<T(T)>& f) {
      for (auto& e : s) {
        e = f(e);
      }
    };
    switch (r.range(0, 13)) {
      case 0:
        note(cat(name, " += scalar"));
        x += v;
        each([=](T e) { return T(e + v); });
        break;
      case 1: {
        note(cat(name, " -= own element"));
        const T o = s[i];
        x -= x[i];
        each([=](T e) { return T(e - o); });
        break;
      }
      case 2:
        if (b->shape == a->shape) {
          note(cat(name, " += ", a == b ? "itself" : "other"));
          x += b->raster;
          const auto o = b->shadow;
          for (long k = 0; k < n; ++k) {
            s[k] = T(s[k] + o[k]);
          }
        }
        break;
      case 3:
        note(cat(name, " * scalar - itself"));
        slots.push_back({x * T(2) - x, a->shape, s});
        for (auto& e : slots.back().shadow) {
          e = T(T(e * 2) - e);
        }
        break;
      case 4:
        if (b->shape == a->shape) {
          note(cat(name, " + other"));
          slots.push_back({x + b->raster, a->shape, s});
          for (long k = 0; k < n; ++k) {
            slots.back().shadow[k] = T(s[k] + b->shadow[k]);
          }
        }
        break;
      case 5:
        note(cat("- ", name));
        slots.push_back({-x, a->shape, s});
        for (auto& e : slots.back().shadow) {
          e = T(-e);
        }
        break;
      case 6:
        note(cat("apply to ", name));
        x.apply([](T e) { return T(e / 2 + 1); });
        each([](T e) { return T(e / 2 + 1); });
        break;
      case 7:
        if (b->shape == a->shape) {
          note(cat("generate from ", a == b ? "itself " : "other ", name));
          x.generate([](T e, T f) { return T(e - f); }, b->raster, x);
          const auto o = b->shadow;
          for (long k = 0; k < n; ++k) {
            s[k] = T(o[k] - s[k]);
          }
        }
        break;
      case 8:
        note(cat("max ", name));
        x.max(v);
        each([=](T e) { return std::max(e, v); });
        break;
      case 9:
        note(cat("fill ", name, " with own element"));
        x.fill(x[i]);
        s.assign(n, T(s[i]));
        break;
      case 10:
        note(cat("range ", name));
        x.range(T(1), T(2));
        for (long k = 0; k < n; ++k) {
          s[k] = T(1 + 2 * (unsigned long)(k));
        }
        break;
      case 11:
        note(cat("++ ", name));
        slots.push_back({x++, a->shape, s});
        each([](T e) { return T(e + 1); });
        break;
      case 12:
        note(cat("write ", name));
        x[i] = v;
        s[i] = v;
        x.at(-1) = x.back() = v;
        s.back() = v;
        break;
      default:
        note(cat("min of ", name, " and scalar"));
        slots.push_back({Litl::min(x, v), a->shape, s});
        for (auto& e : slots.back().shadow) {
          e = std::min(e, v);
        }
    }
    if (not std::is_same<T, unsigned char>::value) {
      for (auto slot : {&*a, &slots.back()}) {
        slot->raster.apply(reduced);
        for (auto& e : slot->shadow) {
          e = reduced(e);
        }
      }
    }
  }

  // ---- views

  template <typename View>
  void write(View&& view, Values& shadow, const std::vector<long>& indices) {
    auto& m = mon();
    m.check(view.size() == indices.size(), "view-size");
    const T v = any(r);
    switch (r.range(0, 2)) {
      case 0:
        view.fill(v);
        for (auto i : indices) {
          shadow[i] = v;
        }
        break;
      case 1:
        view.apply([](T e) { return T(T(99) - e); });
        for (auto i : indices) {
          shadow[i] = T(T(99) - shadow[i]);
        }
        break;
      default:
        for (auto& e : view) {
          e = v;
        }
        for (auto i : indices) {
          shadow[i] = v;
        }
    }
    if (r.chance(2)) { // Views are read at last
      bool same = true;
      for (std::size_t k = 0; k < indices.size(); ++k) {
        same &= view[k] == shadow[indices[k]];
      }
      m.check(same, "view-read");
    }
  }

  static std::vector<long> select(const Vec& shape, const Vec& lo, const Vec& hi) {
    std::vector<long> out;
    for (const auto& p : vp::positions(lo, hi)) {
      out.push_back(vp::refIndex(shape, p));
    }
    return out;
  }

  template <Index N, typename H>
  void views(Slots<N, H>& slots, const char* name) {
    auto a = pick(slots);
    auto& x = a->raster;
    auto& s = a->shadow;
    const int dim = a->shape.size();
    Vec lo(dim), hi(dim);
    for (int i = 0; i < dim; ++i) {
      lo[i] = r.range(0, a->shape[i] - 1);
      hi[i] = r.range(lo[i], a->shape[i] - 1);
    }
    switch (r.range(0, 5)) {
      case 0: {
        const long f = lo[dim - 1], b = hi[dim - 1];
        note(cat("section of ", name, a->shape, " ", f, ":", b));
        Vec l(dim, 0), h = vp::minus1(a->shape);
        l[dim - 1] = f;
        h[dim - 1] = b;
        write(x.section(f, b), s, select(a->shape, l, h));
        break;
      }
      case 1: {
        note(cat("subraster of ", name, a->shape, " ", lo, hi));
        auto sub = x.subraster(vp::box<N>(lo, hi));
        const auto indices = select(a->shape, lo, hi);
        const T v = any(r);
        std::size_t k = 0;
        for (auto& e : sub) {
          if (k < indices.size()) {
            mon().check(e == s[indices[k]], "subraster-read");
            s[indices[k++]] = v;
          }
          e = v;
        }
        mon().check(k == indices.size(), "subraster-size");
        break;
      }
      case 2: {
        Vec l(dim, 0), h = vp::minus1(a->shape); // A line
        for (int i = 1; i < dim; ++i) {
          l[i] = h[i] = lo[i];
        }
        l[0] = lo[0];
        h[0] = hi[0];
        note(cat("slice of ", name, a->shape, " ", l, h));
        write(x.template slice<1>(vp::box<N>(l, h)), s, select(a->shape, l, h));
        break;
      }
      case 3: {
        note(cat("pointer raster to ", name, a->shape));
        std::vector<long> all(s.size());
        std::iota(all.begin(), all.end(), 0);
        PtrRaster<T, N> view(x.shape(), x.data());
        const auto copy = view;
        write(view, s, all);
        mon().check(copy == x, "view-shared");
        break;
      }
      case 4: {
        note(cat("positions of ", name, a->shape, " ", lo, hi));
        const T v = any(r);
        for (const auto& p : vp::box<N>(lo, hi)) {
          x[p] = v;
        }
        for (auto i : select(a->shape, lo, hi)) {
          s[i] = v;
        }
        break;
      }
      default: { // Samples along a line
        const int axis = r.range(0, dim - 1);
        long stride = 1, base = 0;
        for (int i = 0; i < dim; ++i) {
          base += i == axis ? 0 : lo[i] * stride;
          stride *= a->shape[i];
        }
        stride = 1;
        for (int i = 0; i < axis; ++i) {
          stride *= a->shape[i];
        }
        const long step = r.range(1, 4);
        note(cat("samples of ", name, a->shape, " along ", axis, " ", lo[axis], ":", hi[axis], ":", step));
        DataSamples<T> samples(x.data() + base, a->shape[axis], IndexSampling {lo[axis], hi[axis], step}, stride);
        const T v = any(r);
        for (auto& e : samples) {
          e = v;
        }
        for (long k = lo[axis]; k <= hi[axis]; k += step) {
          s[base + k * stride] = v;
        }
      }
    }
  }

  // ---- user memory

  void users() {
    if (blocks.empty() || r.chance(3)) {
      const long n = r.range(4, 200);
      note(cat("allocate ", n));
      Block b {std::unique_ptr<T[]>(new T[n]), values(r, n)};
      std::copy(b.shadow.begin(), b.shadow.end(), b.data.get());
      blocks.push_back(std::move(b));
      return;
    }
    auto b = pick(blocks);
    const long n = b->shadow.size(), w = r.range(1, n), front = r.range(0, n - w);
    std::vector<long> indices(w);
    std::iota(indices.begin(), indices.end(), front);
    switch (r.range(0, 3)) {
      case 0:
        note("free");
        blocks.erase(b);
        break;
      case 1:
        note(cat("pointer raster to ", w, " of ", n, " from ", front));
        write(PtrRaster<T, 2>({1, w}, b->data.get() + front), b->shadow, indices);
        break;
      case 2: {
        note(cat("aligned view of ", w, " of ", n, " from ", front));
        AlignedRaster<T, 1> view({w}, b->data.get() + front, 1);
        auto other = std::move(view);
        write(other, b->shadow, indices);
        break;
      }
      default:
        note(cat("raster from ", w, " of ", n, " from ", front));
        v2.push_back({Raster<T, 2>({w, 1}, b->data.get() + front), {w, 1}, Values(b->data.get() + front, b->data.get() + front + w)});
    }
  }

  void extract() {
    if (v2.empty()) {
      return;
    }
    auto a = pick(v2);
    note("extract the container");
    std::vector<T> out {T(1), T(2)};
    a->raster.moveTo(out);
    mon().check(out == a->shadow, "extracted");
    if (r.chance(2)) {
      const auto data = out.data();
      v2.push_back({Raster<T, 2>(pos<2>(a->shape), std::move(out)), a->shape, a->shadow});
      mon().check(v2.back().raster.data() == data, "not-copied");
    }
    v2.erase(a);
  }

  // ---- statistics and texts

  template <Index N, typename H>
  void observe(Slots<N, H>& slots, const char* name) {
    auto& m = mon();
    const auto a = pick(slots);
    const auto& x = a->raster;
    auto sorted = a->shadow;
    std::sort(sorted.begin(), sorted.end());
    note(cat("observe ", name));
    m.check(x.min() == sorted.front() && x.max() == sorted.back(), "observed");
    auto d = x.distribution();
    m.check(d.min() == sorted.front() && d.max() == sorted.back() && d.nth(sorted.size() / 2) == sorted[sorted.size() / 2], "observed");
    long double sum = 0;
    for (auto e : sorted) {
      sum += e;
    }
    m.check(std::fabs(d.sum() - sum) <= 1e-5 * (1 + std::fabs(sum)), "observed");
    std::ostringstream os;
    os << x;
    m.check(os.str().size() >= 3, "observed");
    auto b = pick(slots);
    m.check((x == b->raster) == (a->shape == b->shape && a->shadow == b->shadow), "observed-equality");
    Sequence<T> sequence(x);
    m.check(std::equal(sequence.begin(), sequence.end(), a->shadow.begin()), "observed");
    m.check(vp::thrown([&] { x.at(Index(x.size())); }) == "OutOfBoundsError", "observed");
    m.check(vp::thrown([&] { const Values wrong(x.size() + 1);
      Raster<T, N, H> out(x.shape(), wrong); }) == "SizeError", "observed");
  }

  // ---- filters

  T extrapolated(const Values& s, const Vec& shape, Vec p, int method, T constant) {
    for (std::size_t i = 0; i < p.size(); ++i) {
      if (p[i] < 0 || p[i] >= shape[i]) {
        if (method == 0) {
          return constant;
        }
        p[i] = method == 1 ? std::min(std::max(p[i], 0l), shape[i] - 1) : ((p[i] % shape[i]) + shape[i]) % shape[i];
      }
    }
    return s[vp::refIndex(shape, p)];
  }

  template <typename R, typename F>
  auto withMethod(const R& raster, int method, T constant, F&& f) {
    switch (method) {
      case 0:
        return f(extrapolate<OutOfBoundsConstant<T>>(raster, constant));
      case 1:
        return f(extrapolate<NearestNeighbor>(raster));
      default:
        return f(extrapolate<Periodic>(raster));
    }
  }

  template <Index N, typename H>
  void filters(Slots<N, H>& slots, const char* name) {
    const auto a = pick(slots);
    const auto& x = a->raster;
    const auto shape = a->shape;
    const auto s = a->shadow;
    if (s.size() > 400) {
      return;
    }
    const int dim = shape.size();
    const int method = r.range(0, 2);
    const T constant = any(r);
    const auto kshape = vp::shapeBiased(r, dim, 12);
    Vec lo(dim), hi(dim);
    for (int i = 0; i < dim; ++i) {
      lo[i] = -r.range(0, kshape[i] - 1);
      hi[i] = lo[i] + kshape[i] - 1;
    }
    const auto window = vp::positions(lo, hi);
    const auto neighbors = [&](const Vec& p) {
      Values out;
      for (const auto& q : window) {
        auto at = p;
        for (int i = 0; i < dim; ++i) {
          at[i] += q[i];
        }
        out.push_back(extrapolated(s, shape, at, method, constant));
      }
      return out;
    };
    const auto domain = vp::positions(Vec(dim, 0), vp::minus1(shape));
    const auto text = cat(name, shape, " window ", lo, hi, " method ", method);
    auto out = Raster<T, N>(pos<N>(shape));
    out.fill(T(1));
    Values expected;
    const int which = r.range(0, 3);
    switch (which) {
      case 0: {
        note(cat("correlate ", text));
        std::vector<long> kv(window.size());
        for (auto& e : kv) {
          e = r.range(-3, 3);
        }
        auto kernel = kernelize<long, N>(kv.data(), vp::box<N>(lo, hi));
        const auto result = withMethod(x, method, constant, [&](const auto& in) { return kernel * in; });
        std::size_t i = 0;
        for (const auto& p : domain) {
          const auto v = neighbors(p);
          long sum = 0;
          for (std::size_t k = 0; k < kv.size(); ++k) {
            sum += kv[k] * long(v[k]);
          }
          mon().check(result[i++] == sum, "correlated");
        }
        return;
      }
      case 1:
        note(cat("erode ", text));
        withMethod(x, method, constant, [&](const auto& in) {
          StructuringElement<T, N>(vp::box<N>(lo, hi)).erodeTo(in, out);
          return 0;
        });
        for (const auto& p : domain) {
          const auto v = neighbors(p);
          expected.push_back(*std::min_element(v.begin(), v.end()));
        }
        break;
      case 2:
        note(cat("dilate ", text));
        withMethod(x, method, constant, [&](const auto& in) {
          StructuringElement<T, N> element(vp::box<N>(lo, hi));
          const auto copy = element;
          auto again = copy;
          again.dilateTo(in, out);
          return 0;
        });
        for (const auto& p : domain) {
          const auto v = neighbors(p);
          expected.push_back(*std::max_element(v.begin(), v.end()));
        }
        break;
      default: {
        note(cat("median ", text));
        withMethod(x, method, constant, [&](const auto& in) {
          MedianFilter<T, N>(vp::box<N>(lo, hi)).applyTo(in, out);
          return 0;
        });
        std::size_t i = 0;
        for (const auto& p : domain) {
          auto v = neighbors(p);
          std::sort(v.begin(), v.end());
          const auto n = v.size();
          const auto e = n % 2 ? double(v[n / 2]) : (double(v[n / 2]) + double(v[n / 2 - 1])) / 2;
          mon().check(std::fabs(double(out[i]) - e) <= (std::is_integral<T>::value ? .5 : 0), "median");
          out[i] = reduced(out[i]); // Not half-integer
          expected.push_back(out[i++]);
        }
      }
    }
    mon().check(std::equal(expected.begin(), expected.end(), out.begin()), "filtered", [&] { return cat("got ", vp::list(out), " expected ", expected); });
    keep(std::move(out), shape, expected);
  }
  void keep(Raster<T, 1>&& out, const Vec& shape, const Values& v) {
    v1.push_back({std::move(out), shape, v});
  }
  void keep(Raster<T, 2>&& out, const Vec& shape, const Values& v) {
    v2.push_back({std::move(out), shape, v});
  }
  void keep(Raster<T, 3>&& out, const Vec& shape, const Values& v) {
    v3.push_back({std::move(out), shape, v});
  }
  void keep(Raster<T, -1>&& out, const Vec& shape, const Values& v) {
    vn.push_back({std::move(out), shape, v});
  }

  /// Lines, interpolations and transforms of images
  template <typename H>
  void images(Slots<2, H>& slots, const char* name) {
    auto& m = mon();
    const auto a = pick(slots);
    const auto& x = a->raster;
    const auto& shape = a->shape;
    const auto& s = a->shadow;
    if (s.size() > 400) {
      return;
    }
    switch (r.range(0, 3)) {
      case 0: {
        std::vector<double> kv(r.range(1, 5));
        for (auto& e : kv) {
          e = r.range(-3, 3);
        }
        const long origin = r.range(0, kv.size() - 1);
        note(cat("separable correlation of ", name, shape, " by ", kv, " origin ", origin));
        const auto kernel = LineKernel<double>(kv, origin).template along<0, 1>();
        const auto out = kernel * x;
        for (long j = 0; j < shape[1]; ++j) {
          for (long i = 0; i < shape[0]; ++i) {
            double sum = 0;
            for (long q = 0; q < long(kv.size()); ++q) {
              for (long p = 0; p < long(kv.size()); ++p) {
                sum += kv[p] * kv[q] * double(extrapolated(s, shape, {i + p - origin, j + q - origin}, 0, T(0)));
              }
            }
            m.check(out[{i, j}] == sum, "separable");
          }
        }
        break;
      }
      case 1: {
        const double u = r.range(-8, 8 * shape[0] + 8) / 8., v = r.range(-8, 8 * shape[1] + 8) / 8.;
        const int method = r.range(0, 2);
        const T constant = any(r);
        note(cat("interpolate ", name, shape, " at ", u, ",", v, " method ", method));
        const auto seen = withMethod(x, method, constant, [&](const auto& in) { return double(interpolate<Linear>(in)(Vector<double, 2>({u, v}))); });
        const long i = std::floor(u), j = std::floor(v);
        const auto at = [&](long p, long q) { return double(extrapolated(s, shape, {p, q}, method, constant)); };
        const auto du = u - i, dv = v - j;
        const double e = (at(i, j) * (1 - du) + at(i + 1, j) * du) * (1 - dv) + (at(i, j + 1) * (1 - du) + at(i + 1, j + 1) * du) * dv;
        m.check(std::fabs(seen - e) <= 1e-4, "interpolated", [&] { return cat(seen, " expected ", e); });
        break;
      }
      case 2: {
        note(cat("Fourier transforms of ", name, shape));
        RealDft<2> plan(pos<2>(shape));
        auto inverse = plan.inverse();
        std::copy(s.begin(), s.end(), plan.in().begin());
        auto moved = std::move(plan);
        double sum = 0;
        for (auto e : s) {
          sum += double(e);
        }
        moved.transform();
        m.check(std::abs(moved.out()[0] - sum) <= 1e-6 * (1 + std::fabs(sum)), "fourier");
        inverse.transform().normalize();
        bool same = true;
        for (std::size_t k = 0; k < s.size(); ++k) {
          same &= std::fabs(inverse.out()[k] - double(s[k])) < 1e-6;
        }
        m.check(same, "fourier-inverse");
        break;
      }
      default: {
        const double radius = r.pick<double>({0, 1, 1.5, 2});
        note(cat("ball dilation of ", name, shape, " radius ", radius));
        Raster<T, 2> out(x.shape());
        StructuringElement<T, 2, Ball<2, 2>>(Ball<2, 2>(radius)).dilateTo(extrapolate<NearestNeighbor>(x), out);
        Values expected;
        for (const auto& p : vp::positions({0, 0}, vp::minus1(shape))) {
          T e = s[vp::refIndex(shape, p)];
          for (long j = -2; j <= 2; ++j) {
            for (long i = -2; i <= 2; ++i) {
              if (i * i + j * j <= radius * radius) {
                e = std::max(e, extrapolated(s, shape, {p[0] + i, p[1] + j}, 1, T(0)));
              }
            }
          }
          expected.push_back(e);
        }
        m.check(std::equal(expected.begin(), expected.end(), out.begin()), "ball-dilation");
        keep(std::move(out), shape, expected);
      }
    }
  }

  template <Index N, typename H>
  void step(Slots<N, H>& slots, const char* name) {
    if (slots.empty() || (slots.size() < 6 && r.chance(6))) {
      create(slots, name);
      return;
    }
    while (slots.size() > 12) {
      lifeCycle(slots, name);
    }
    switch (r.range(0, 9)) {
      case 0:
      case 1:
        lifeCycle(slots, name);
        break;
      case 2:
      case 3:
      case 4:
        elementWise(slots, name);
        break;
      case 5:
      case 6:
        views(slots, name);
        break;
      case 7:
        observe(slots, name);
        break;
      default:
        filters(slots, name);
    }
  }

  void step() {
    switch (r.range(0, 12)) {
      case 0:
        step(v1, "VecRaster<1>");
        break;
      case 1:
      case 2:
        step(v2, "VecRaster<2>");
        break;
      case 3:
        step(v3, "VecRaster<3>");
        break;
      case 4:
      case 5:
        step(vn, "VecRaster<-1>");
        break;
      case 6:
        step(a2, "AlignedRaster<2>");
        break;
      case 7:
        step(an, "AlignedRaster<-1>");
        break;
      case 8:
        step(w3, "ValRaster<3>");
        break;
      case 9:
        users();
        break;
      case 10:
        extract();
        break;
      case 11:
        if (not v2.empty()) {
          images(v2, "VecRaster<2>");
        }
        break;
      default:
        if (not a2.empty()) {
          images(a2, "AlignedRaster<2>");
        }
    }
  }
};

static void history(std::uint64_t seed, int steps) {
  vp::Rng r(seed);
  World world(r);
  for (int i = 0; i < steps; ++i) {
    world.step();
    world.verify();
  }
  mon().evaluations++;
  mon().distinct.insert(vp::hashStr(world.log));
  mon().sample(world.log.substr(0, 300));
  mon().samples = 3;
}

static void histories(int count, int steps) {
  auto& m = mon();
  m.begin("warm-up", false);
  history(7, steps);
  for (int k = 0; k < count * m.scale; ++k) {
    const auto seed = m.rng.next();
    std::size_t before = 0;
    long grown = 0;
    for (int turn = 0; turn < 3; ++turn) { // The same history gives back its memory
      m.begin("", false);
      history(seed, steps);
      m.caseText.clear();
      m.caseText.shrink_to_fit();
      const auto now = vp::allocated();
      grown += turn > 0 && now > before + 512;
      before = now;
      if (k % 8) {
        break;
      }
    }
    m.check(grown < 2, "allocated", [&] { return cat("history ", seed, " of ", steps, " operations"); });
  }
}

SCENARIO(short_histories) { histories(500, 30); }
SCENARIO(medium_histories) { histories(150, 120); }
SCENARIO(long_histories) { histories(40, 500); }

VP_MAIN
