// BUILD: name=l1 san=asan define=NORM=1 parts=4
// BUILD: name=l2 san=asan define=NORM=2 parts=4
// BUILD: name=l3 san=asan define=NORM=3 parts=4
// BUILD: name=l4 san=asan define=NORM=4 parts=4
// BUILD: name=l7 san=asan define=NORM=7 parts=3
// RULE: A case is an Lp ball (p in 1..4 and 7, dimension 1 to 4, radius at, just below, just above and between the values where
//   positions enter the ball, center of any sign). The visited positions are logged and compared with an exhaustive
//   enumeration of a larger box. Non-trivial: at least 3 positions. Distinct: by norm, dimension, radius and center.
#include "litl.hpp"

#include "LitlRaster/Ball.h"

constexpr Index N = PART + 1;
using Ball = Litl::Ball<N, NORM>;

static double power(double x) {
  double out = 1;
  for (int i = 0; i < NORM; ++i) {
    out *= x;
  }
  return out;
}

static void examine(double radius, const Vec& center) {
  auto& m = mon();
  const Ball ball(radius, pos<N>(center));
  const long reach = long(radius) + 1;
  Vec lo(N), hi(N), blo(N), bhi(N);
  for (int i = 0; i < N; ++i) {
    lo[i] = center[i] - reach;
    hi[i] = center[i] + reach;
    blo[i] = center[i] - long(radius);
    bhi[i] = center[i] + long(radius);
  }
  std::vector<Vec> expected;
  for (const auto& p : vp::positions(lo, hi)) {
    double d = 0;
    for (int i = 0; i < N; ++i) {
      d += power(std::abs(double(p[i] - center[i])));
    }
    const double limit = power(radius);
    if (std::abs(d - limit) < 1e-9 * (1 + limit) && NORM > 1 && radius * 4 != std::floor(radius * 4)) {
      return; // Too close to call with floating point radii
    }
    if (d <= limit) {
      expected.push_back(p);
    }
  }
  mon().begin(cat("L", NORM, " N=", N, " radius ", radius, " center ", center), expected.size() >= 3);
  std::vector<Vec> visited;
  for (const auto& p : ball) {
    visited.push_back(toVec(p));
    if (visited.size() > expected.size() + 10) {
      break;
    }
  }
  m.count("positions visited", visited.size());
  m.check(visited == expected, "iteration", [&] { return cat("visited ", visited.size(), " expected ", expected.size()); });
  m.check(ball.size() == Index(expected.size()), "size", [&] { return cat("size ", ball.size(), " expected ", expected.size()); });
  std::size_t k = 0;
  const auto last = end(ball);
  for (auto it = begin(ball); it != last && k <= expected.size(); ++k) {
    m.check(k < expected.size() && toVec(*it) == expected[k] && it->size() == N, "explicit-iteration");
    const auto copy = it;
    m.check(copy == it && !(copy != it), "iterator-equality");
    if (k + 1 < expected.size() && k < 40) { // A copy survives its original
      auto original = std::make_unique<std::decay_t<decltype(it)>>(begin(ball));
      auto survivor = *original;
      original.reset();
      for (std::size_t j = 0; j <= k; ++j) {
        ++survivor;
      }
      m.check(toVec(*survivor) == expected[k + 1], "iterator-survivor");
    }
    if (k % 2) {
      m.check(toVec(*it++) == expected[k], "post-increment");
    } else {
      ++it;
    }
    m.check(toVec(*copy) == expected[k], "iterator-copy");
  }
  m.check(k == expected.size(), "explicit-iteration");
  m.check(ball.radius() == radius && toVec(ball.center()) == center, "accessors");
  m.check(ball.dimension() == N, "dimension");
  const auto b = ball.box();
  m.check(toVec(b.front()) == blo && toVec(b.back()) == bhi, "bounding-box");
  m.check(toVec(ball.shape()) == Vec(N, 2 * long(radius) + 1), "shape");
  m.check(ball.length(0) == 2 * long(radius) + 1 && ball.length() == ball.length(0) && ball.template length<0>() == ball.length(0), "length");
}

static void operators(double radius, const Vec& center, const Vec& shift, long s) {
  auto& m = mon();
  const Ball ball(radius, pos<N>(center));
  const auto p = pos<N>(shift);
  Vec plus(N), minus(N), neg(N), splus(N), sminus(N), inc(N), dec(N);
  for (int i = 0; i < N; ++i) {
    plus[i] = center[i] + shift[i];
    minus[i] = center[i] - shift[i];
    neg[i] = -center[i];
    splus[i] = center[i] + s;
    sminus[i] = center[i] - s;
    inc[i] = center[i] + 1;
    dec[i] = center[i] - 1;
  }
  const auto expect = [&](const Ball& got, const Vec& c, const char* key) {
    m.check(toVec(got.center()) == c && got.radius() == radius, key, [&] { return cat("got ", toVec(got.center()), " expected ", c); });
  };
  auto b = ball;
  expect(b += p, plus, "translate");
  expect(b -= p, center, "translate-back");
  expect(b += s, splus, "scalar-translate");
  expect(b -= s, center, "scalar-translate-back");
  expect(++b, inc, "increment");
  expect(--b, center, "decrement");
  expect(--b, dec, "decrement");
  expect(++b, center, "increment");
  expect(ball + p, plus, "translate-new");
  expect(ball - p, minus, "translate-back-new");
  expect(p + ball, plus, "translate-commuted");
  expect(ball + s, splus, "scalar-new");
  expect(ball - s, sminus, "scalar-back-new");
  expect(+b, center, "unary-plus");
  expect(-b, neg, "negation");
  expect(ball, center, "operand-preserved");
  m.check(ball == b && !(ball != b), "equality");
  m.check(ball != Ball(radius + .5, pos<N>(center)) && !(ball == Ball(radius + .5, pos<N>(center))), "inequality");
  for (int i = 0; i < N; ++i) {
    auto c = center;
    ++c[i];
    m.check(ball != Ball(radius, pos<N>(c)) && !(ball == Ball(radius, pos<N>(c))), "inequality");
  }
}

SCENARIO(balls) {
  auto& r = mon().rng;
  const double maxRadius = N == 1 ? 40 : N == 2 ? 9 : N == 3 ? 5 : 3;
  for (int k = 0; k < 120 * mon().scale; ++k) {
    double radius;
    switch (r.range(0, 4)) {
      case 0:
        radius = r.range(0, long(maxRadius));
        break;
      case 1:
        radius = std::pow(double(r.range(0, long(power(maxRadius)))), 1. / NORM); // Where positions may enter
        break;
      case 2:
        radius = std::pow(r.range(0, long(power(maxRadius))) + .5, 1. / NORM);
        break;
      case 3:
        radius = r.range(0, long(maxRadius) - 1) + r.pick(std::vector<double> {.001, .5, .999});
        break;
      default:
        radius = r.real(0, maxRadius);
    }
    Vec center(N), shift(N);
    for (int i = 0; i < N; ++i) {
      center[i] = r.pick(Vec {0, 1, -1, r.range(-20, 20), r.range(-20, 20), 1000003});
      shift[i] = r.range(-20, 20);
    }
    examine(radius, center);
    operators(radius, center, shift, r.range(-5, 5));
  }
  // Default center
  const Ball ball(1.5);
  mon().check(ball.center().isZero(), "default-center");
}

VP_MAIN
