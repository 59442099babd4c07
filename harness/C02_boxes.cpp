// BUILD: name=fixed san=asan parts=6
// BUILD: name=dynamic san=asan define=DYNAMIC
// RULE: A case is a box (random dimension, front of any sign, boundary-biased lengths, 1 in 5 with an empty axis) with a
//   margin containing the origin, shifts and positions. The visited positions are logged and compared with a nested-loop
//   model. Non-trivial: more than one position. Distinct: by box, margin and shifts.
#include "litl.hpp"

using vp::box;

#ifdef DYNAMIC
constexpr Index N = -1;
#else
constexpr Index N = PART + 1;
#endif

static Vec add(const Vec& a, const Vec& b, long s = 1) {
  Vec out = a;
  for (std::size_t i = 0; i < out.size(); ++i) {
    out[i] += s * b[i];
  }
  return out;
}
static Vec add(const Vec& a, long b) {
  Vec out = a;
  for (auto& e : out) {
    e += b;
  }
  return out;
}

template <Index M, Index I>
std::enable_if_t<(M == -1 || I >= M)> checkStatic(const Litl::Box<M>&, const Vec&) {}
template <Index M, Index I>
std::enable_if_t<(M != -1 && I < M)> checkStatic(const Litl::Box<M>& b, const Vec& shape) {
  mon().check(b.template length<I>() == shape[I], "static-length");
  checkStatic<M, I + 1>(b, shape);
}

/// All the visited positions (bounded, in case iteration does not end)
static std::vector<Vec> visit(const Litl::Box<N>& b, long limit) {
  std::vector<Vec> out;
  for (const auto& p : b) {
    out.push_back(toVec(p));
    if (long(out.size()) > limit) {
      break;
    }
  }
  return out;
}

static bool is(const Litl::Box<N>& b, const Vec& lo, const Vec& hi) {
  return toVec(b.front()) == lo && toVec(b.back()) == hi;
}
static std::string text(const Litl::Box<N>& b) {
  return cat(toVec(b.front()), toVec(b.back()));
}

static void examine(const Vec& lo, const Vec& hi) {
  auto& m = mon();
  const auto b = box<N>(lo, hi);
  const int dim = lo.size();
  Vec shape(dim);
  long size = 1;
  for (int i = 0; i < dim; ++i) {
    shape[i] = hi[i] - lo[i] + 1;
    size *= std::max(shape[i], 0l);
  }
  m.check(is(b, lo, hi), "bounds");
  m.check(toVec(b.shape()) == shape, "shape");
  m.check(b.dimension() == dim, "dimension");
  m.check(b.size() == size, "size", [&] { return cat("got ", b.size(), " expected ", size); });
  for (int i = 0; i < dim; ++i) {
    m.check(b.length(i) == shape[i], "length");
  }
  checkStatic<N, 0>(b, shape);
  // Iteration: range for, pre-increment, post-increment, standard algorithms, iterator copies
  const auto expected = vp::positions(lo, hi);
  const auto visited = visit(b, size + 10);
  m.count("positions visited", visited.size());
  m.check(visited == expected, "iteration", [&] { return cat("visited ", visited.size(), " expected ", expected.size(), " first ", visited.empty() ? Vec() : visited[0]); });
  std::size_t k = 0;
  const auto last = end(b);
  for (auto it = begin(b); it != last && k <= expected.size(); ++k) {
    m.check(k < expected.size() && toVec(*it) == expected[k] && it->size() == std::size_t(dim), "explicit-iteration");
    const auto copy = it;
    m.check(copy == it && !(copy != it), "iterator-equality");
    if (k + 1 < expected.size() && k < 40) { // A copy survives its original
      auto original = std::make_unique<std::decay_t<decltype(it)>>(begin(b));
      auto survivor = *original;
      original.reset();
      for (std::size_t j = 0; j <= k; ++j) {
        ++survivor;
      }
      m.check(toVec(*survivor) == expected[k + 1], "iterator-survivor");
    }
    if (k % 2) {
      m.check(toVec(*it++) == expected[k], "post-increment");
    } else {
      ++it;
    }
    m.check(toVec(*copy) == expected[k], "iterator-copy");
    m.check(copy != it, "iterator-equality");
  }
  m.check(k == expected.size(), "explicit-iteration");
  k = 0;
  std::for_each(begin(b), end(b), [&](const auto& p) {
    if (k < expected.size()) {
      m.check(toVec(p) == expected[k], "for-each");
    }
    ++k;
  });
  m.check(k == expected.size(), "for-each");
}

static void operators(const Vec& lo, const Vec& hi, const Vec& mf, const Vec& mb, const Vec& shift, long s) {
  auto& m = mon();
  const int dim = lo.size();
  const auto b = box<N>(lo, hi);
  const auto margin = box<N>(mf, mb);
  const auto p = pos<N>(shift);
  const auto expect = [&](const Litl::Box<N>& got, const Vec& f, const Vec& k, const char* key) {
    m.check(is(got, f, k), key, [&] { return cat("got ", text(got), " expected ", f, k); });
  };
  auto c = b;
  expect(c += margin, add(lo, mf), add(hi, mb), "grow");
  expect(c, add(lo, mf), add(hi, mb), "grow");
  expect(c -= margin, lo, hi, "shrink");
  expect(c += p, add(lo, shift), add(hi, shift), "translate");
  expect(c -= p, lo, hi, "translate-back");
  expect(c += s, add(lo, s), add(hi, s), "scalar-translate");
  expect(c -= s, lo, hi, "scalar-translate-back");
  expect(++c, add(lo, 1), add(hi, 1), "increment");
  expect(--c, lo, hi, "decrement");
  expect(b + margin, add(lo, mf), add(hi, mb), "grow-new");
  expect(b - margin, add(lo, mf, -1), add(hi, mb, -1), "shrink-new");
  expect(b + p, add(lo, shift), add(hi, shift), "translate-new");
  expect(b - p, add(lo, shift, -1), add(hi, shift, -1), "translate-back-new");
  expect(p + b, add(lo, shift), add(hi, shift), "translate-commuted");
  expect(b + s, add(lo, s), add(hi, s), "scalar-new");
  expect(b - s, add(lo, -s), add(hi, -s), "scalar-back-new");
  expect(s + b, add(lo, s), add(hi, s), "scalar-commuted");
  expect(+c, lo, hi, "unary-plus");
  const Vec zero(dim, 0);
  expect(-c, add(zero, lo, -1), add(zero, hi, -1), "negation");
  expect(b, lo, hi, "operand-preserved");
  expect(c, lo, hi, "operand-preserved");
  m.check(b == c && !(b != c), "equality");
  for (int i = 0; i < dim; ++i) {
    auto f = lo, k = hi;
    ++f[i];
    m.check(!(b == box<N>(f, hi)) && b != box<N>(f, hi), "inequality");
    --k[i];
    m.check(!(b == box<N>(lo, k)) && b != box<N>(lo, k), "inequality");
    auto flat = hi;
    flat[i] = lo[i];
    expect(project(b, i), lo, flat, "project-new");
    auto d = b;
    expect(d.project(i), lo, flat, "project");
    expect(d, lo, flat, "project");
  }
  auto d = b;
  auto flat = hi;
  flat[0] = lo[0];
  expect(d.project(), lo, flat, "project-default");
  expect(project(b), lo, flat, "project-default");
  Vec shape(dim);
  for (int i = 0; i < dim; ++i) {
    shape[i] = hi[i] - lo[i] + 1;
  }
  expect(Litl::Box<N>::fromShape(pos<N>(lo), pos<N>(shape)), lo, hi, "from-shape");
  const long radius = std::abs(s);
  expect(Litl::Box<N>::fromCenter(radius, pos<N>(shift)), add(shift, -radius), add(shift, radius), "from-center");
  if (N != -1) {
    expect(Litl::Box<N>::fromCenter(radius), Vec(dim, -radius), Vec(dim, radius), "from-center-default");
    const auto whole = Litl::Box<N>::whole();
    m.check(toVec(whole.front()) == zero && whole.back().isInf(), "whole");
  }
}

static void surroundings(const Vec& lo, const Vec& hi, const Vec& mf, const Vec& mb) {
  auto& m = mon();
  const auto parts = box<N>(lo, hi).surround(box<N>(mf, mb));
  std::map<Vec, int> cover;
  for (const auto& p : vp::positions(lo, hi)) {
    cover[p] = 1;
  }
  for (const auto& part : parts) {
    for (const auto& p : vp::positions(toVec(part.front()), toVec(part.back()))) {
      ++cover[p];
    }
    m.check(part.dimension() == long(lo.size()), "surround-dimension");
  }
  const auto grown = vp::positions(add(lo, mf), add(hi, mb));
  m.check(cover.size() == grown.size(), "surround-covers", [&] { return cat("covered ", cover.size(), " expected ", grown.size()); });
  for (const auto& p : grown) {
    const auto it = cover.find(p);
    m.check(it != cover.end() && it->second == 1, "surround-tiles", [&] { return cat("position ", p, " covered ", it == cover.end() ? 0 : it->second, " times"); });
  }
  m.count("positions tiled", grown.size());
}

static void clamping(const Vec& lo, const Vec& hi, vp::Rng& r) {
  auto& m = mon();
  const int dim = lo.size();
  const auto b = box<N>(lo, hi);
  Vec shape(dim), last(dim);
  for (int i = 0; i < dim; ++i) {
    shape[i] = hi[i] - lo[i] + 1;
    last[i] = shape[i] - 1;
  }
  for (int k = 0; k < 8; ++k) {
    Vec p(dim), q(dim), t(dim);
    std::vector<double> x(dim), y(dim), z(dim);
    for (int i = 0; i < dim; ++i) {
      p[i] = r.chance(5) ? r.pick(Vec {-100000, 100000, lo[i], hi[i], lo[i] - 1, hi[i] + 1, 0, -1}) : r.range(lo[i] - 3, hi[i] + 3);
      q[i] = std::min(std::max(p[i], lo[i]), hi[i]);
      t[i] = std::min(std::max(p[i], 0l), last[i]);
      x[i] = p[i] + r.pick(std::vector<double> {0, .25, -.5});
      y[i] = std::min(std::max(x[i], double(lo[i])), double(hi[i]));
      z[i] = std::min(std::max(x[i], 0.), double(last[i]));
    }
    m.check(toVec(Litl::clamp<Index, N>(pos<N>(p), b)) == q, "clamp-box", [&] { return vp::show(p); });
    m.check(toVec(Litl::clamp<double, N>(vec<N, double>(x), b)) == y, "clamp-box-real", [&] { return vp::show(x); });
    m.check(toVec(Litl::clamp(pos<N>(p), pos<N>(shape))) == t, "clamp-shape", [&] { return vp::show(p); });
    m.check(toVec(Litl::clamp<double, N>(vec<N, double>(x), pos<N>(shape))) == z, "clamp-shape-real", [&] { return vp::show(x); });
  }
}

static void drive(int cases, long maxSize, int emptyOneIn) {
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const int dim = vp::dimOf(N, r, 6);
    const auto shape = vp::shapeBiased(r, dim, dim > 4 ? std::min(maxSize, 60l) : maxSize);
    Vec lo(dim), hi(dim), mf(dim), mb(dim), shift(dim);
    for (int i = 0; i < dim; ++i) {
      lo[i] = r.pick(Vec {0, 0, -1, 1, -shape[i], -shape[i] / 2, 1 - shape[i], 1000000007, r.range(-9, 9)});
      hi[i] = lo[i] + shape[i] - 1;
      mf[i] = r.chance(3) ? 0 : -r.range(0, dim > 4 ? 1 : 3);
      mb[i] = r.chance(3) ? 0 : r.range(0, dim > 4 ? 1 : 3);
      shift[i] = r.range(-20, 20);
    }
    const bool empty = r.chance(emptyOneIn);
    if (empty) {
      for (int i = r.range(0, dim - 1); i < dim; i += r.range(1, 3)) {
        hi[i] = lo[i] - r.range(1, 3);
      }
    }
    const long s = r.range(-5, 5);
    mon().begin(cat("N=", N, " box ", lo, hi, " margin ", mf, mb, " shift ", shift, " ", s), vp::product(shape) > 1 && !empty);
    examine(lo, hi);
    operators(lo, hi, mf, mb, shift, s);
    if (!empty) {
      surroundings(lo, hi, mf, mb);
      clamping(lo, hi, r);
    }
  }
}

SCENARIO(small_boxes) { drive(250, 12, 5); }
SCENARIO(boxes) { drive(120, 400, 5); }
SCENARIO(large_boxes) { drive(20, 5000, 20); }

VP_MAIN

SCENARIO(huge_boxes) { // Not visited entirely
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 60 * m.scale; ++k) {
    const int dim = vp::dimOf(N, r, 6);
    Vec lo(dim), hi(dim), shape(dim);
    long left = 1l << 60, size = 1;
    for (int i = 0; i < dim; ++i) {
      shape[i] = r.chance(4) ? r.range(1, 3) : r.range(1, std::max(1l, std::min(left, r.pick(Vec {70000, 5000000000, 300}))));
      left /= shape[i];
      size *= shape[i];
      lo[i] = r.pick(Vec {0, -1, -shape[i], 5000000000, -5000000000, r.range(-9, 9)});
      hi[i] = lo[i] + shape[i] - 1;
    }
    m.begin(cat("N=", N, " huge box ", lo, hi), true);
    const auto b = box<N>(lo, hi);
    m.check(is(b, lo, hi), "bounds");
    m.check(toVec(b.shape()) == shape, "shape");
    m.check(b.size() == size, "size", [&] { return cat("got ", b.size(), " expected ", size); });
    checkStatic<N, 0>(b, shape);
    clamping(lo, hi, r);
    const auto moved = b + pos<N>(lo);
    m.check(is(moved, add(lo, lo), add(hi, lo)), "translate");
    auto it = begin(b);
    Vec p = lo;
    for (int j = 0; j < 2000; ++j) {
      m.check(toVec(*it) == p, "huge-iteration", [&] { return cat("got ", toVec(*it), " expected ", p); });
      int i = 0;
      for (; i < dim && ++p[i] > hi[i]; ++i) {
        p[i] = lo[i];
      }
      if (i == dim) {
        break;
      }
      ++it;
    }
    // No upper bound
    const auto whole = Litl::Box<N>::whole();
    if (N != -1 || dim == 1) {
      Vec q(dim), c(dim);
      for (int i = 0; i < dim; ++i) {
        q[i] = r.pick(Vec {-1, 0, 1, lo[i], hi[i], (1l << 62)});
        c[i] = std::max(q[i], 0l);
      }
      m.check(toVec(Litl::clamp<Index, N>(pos<N>(q), whole)) == c, "clamp-whole", [&] { return vp::show(q); });
    }
  }
}
