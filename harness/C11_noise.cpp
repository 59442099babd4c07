// BUILD: name=run san=asan noassert=1
// RULE: A case is (noise, element type, parameters, seed, calls): generators are compared with a twin built with the same parameters
//   and seed; drawn values are compared with their bounds, and the empirical moments and frequencies of 20000 draws with the asked
//   ones (thresholds at 7 standard errors, seeds are fixed). Non-trivial: all. Distinct: by noise, parameters and seed.
#include "litl.hpp"

#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"

using namespace Litl;

template <typename T>
std::vector<T> take(std::function<T()> f, int n) {
  std::vector<T> out(n);
  for (auto& e : out) {
    e = f();
  }
  return out;
}

/// Same parameters and seed, mixing both call operators
template <typename T, typename TMake>
void reproducible(const std::string& name, TMake&& make, const std::vector<T>& in, bool wide) {
  auto& r = mon().rng;
  auto& m = mon();
  const std::size_t seed = vp::anySeed(r);
  m.begin(cat(name, " ", vp::typeName<T>(), " seed ", seed));
  auto a = make(seed), b = make(seed);
  std::vector<bool> applied(in.size());
  for (auto&& x : applied) {
    x = r.chance(2);
  }
  std::vector<T> va, vb, vc;
  auto run = [&](auto& noise, std::vector<T>& out, std::size_t from, std::size_t to) {
    for (std::size_t i = from; i < to; ++i) {
      out.push_back(applied[i] ? T(noise(in[i])) : T(noise()));
    }
  };
  const auto half = in.size() / 2;
  run(a, va, 0, half);
  auto c = a; // A copy goes on like the original
  vc = va;
  run(b, vb, 0, in.size()); // Interleaving generators does not matter
  run(a, va, half, in.size());
  run(c, vc, half, in.size());
  m.check(va == vb, "reproducible", [&] { return cat(vp::show(va), " and ", vp::show(vb)); });
  m.check(va == vc, "copy-reproducible", [&] { return cat(vp::show(va), " and ", vp::show(vc)); });
  // Through containers
  auto d = make(seed), e = make(seed);
  Sequence<T> sequence(in);
  sequence.apply(d);
  std::vector<T> expected;
  for (auto x : in) {
    expected.push_back(e(x));
  }
  m.check(std::equal(sequence.begin(), sequence.end(), expected.begin()), "apply-per-pixel", [&] { return cat(list(sequence), " expected ", vp::show(expected)); });
  auto f = make(seed);
  Raster<T, 2> raster({Index(in.size()), 1});
  raster.generate(make(seed));
  expected.clear();
  for (std::size_t i = 0; i < in.size(); ++i) {
    expected.push_back(f());
  }
  m.check(std::equal(raster.begin(), raster.end(), expected.begin()), "generate-per-pixel", [&] { return cat(list(raster), " expected ", vp::show(expected)); });
  if (wide) { // Another seed gives something else
    auto g = make(seed ^ 1);
    std::vector<T> other;
    for (std::size_t i = 0; i < in.size(); ++i) {
      other.push_back(g());
    }
    m.check(other != expected, "seed-matters");
  }
}

/// noise(x) = x + noise()
template <typename T, typename TMake>
void additive(TMake&& make, const std::vector<T>& in) {
  auto& m = mon();
  const std::size_t seed = vp::anySeed(m.rng);
  auto a = make(seed), b = make(seed);
  for (auto x : in) {
    if (m.rng.chance(3)) { // Values and additive noise are drawn from the same sequence
      const T value = a();
      const T expected = b();
      m.check(value == expected, "additive-interleaved", [&] { return cat("drew ", vp::show(value), " expected ", vp::show(expected)); });
    }
    const T seen = a(x);
    const T noise = b();
    m.check(seen == T(x + noise), "additive", [&] { return cat(vp::show(x), " gives ", vp::show(seen), " expected ", vp::show(T(x + noise))); });
  }
}

struct Moments {
  double n = 0, average = 0, squares = 0, lo = INFINITY, hi = -INFINITY;
  void add(double v) {
    ++n;
    const double d = v - average;
    average += d / n;
    squares += d * (v - average);
    lo = std::min(lo, v);
    hi = std::max(hi, v);
  }
  double mean() const {
    return average;
  }
  double stdev() const {
    return std::sqrt(squares / n);
  }
};

constexpr int draws = 20000;
constexpr double sigmas = 7;

/// Moments up to `slack` (e.g. truncation to integers)
void follows(const Moments& s, double mean, double stdev, double slack, const char* key, double kurtosis = 3) {
  auto& m = mon();
  m.count("values drawn", long(s.n));
  m.check(std::fabs(s.mean() - mean) <= slack + sigmas * stdev / std::sqrt(s.n) + 1e-6 * std::fabs(mean), key, [&] { return cat("mean ", s.mean(), " expected ", mean); });
  const double var = stdev * stdev;
  const double se = var * std::sqrt((kurtosis - 1) / s.n);
  m.check(std::fabs(s.stdev() * s.stdev() - var) <= (slack > 0 ? 2 * slack * stdev + 1 : 0) + sigmas * se + 1e-6 * var, key, [&] { return cat("variance ", s.stdev() * s.stdev(), " expected ", var); });
}

// ------------------------------------------------------------------ uniform

template <typename T>
void uniformInts(long lo, long hi) {
  auto& r = mon().rng;
  auto& m = mon();
  const auto test = [&](T a, T b) {
    const std::size_t seed = vp::anySeed(r);
    m.begin(cat("uniform ", vp::typeName<T>(), " in ", long(a), "..", long(b), " seed ", seed));
    UniformNoise<T> noise(a, b, seed);
    std::map<long, long> counts;
    Moments s;
    for (int i = 0; i < draws; ++i) {
      const T v = noise();
      ++counts[v];
      s.add(double(v));
      if (v < a || v > b) {
        m.report("uniform-bounds", vp::show(v));
      }
    }
    m.check(true, "uniform-bounds");
    const double n = double(b) - double(a) + 1;
    follows(s, (double(a) + double(b)) / 2, std::sqrt((n * n - 1) / 12), 0, "uniform-moments", 1.8);
    if (n <= 20) {
      for (long v = a; v <= long(b); ++v) {
        const double p = 1 / n;
        m.check(std::fabs(counts[v] - p * draws) <= sigmas * std::sqrt(p * (1 - p) * draws) + (n == 1 ? 0 : 1), "uniform-reaches-all", [&] { return cat(v, " drawn ", counts[v]); });
      }
    }
  };
  for (int k = 0; k < 4 * m.scale; ++k) {
    const T a = T(r.range(lo, hi - 1));
    test(a, T(r.range(a, std::min<long>(hi, a + 12))));
    test(a, T(r.range(a, hi)));
    test(a, a);
    test(T(lo), T(hi));
    reproducible<T>("uniform", [&](std::size_t seed) { return UniformNoise<T>(T(1), T(9), seed); }, vp::smallValues<T>(r, 40, 0, 9), true);
    additive<T>([&](std::size_t seed) { return UniformNoise<T>(T(1), T(9), seed); }, vp::smallValues<T>(r, 40, 0, 99));
  }
  // Default bounds
  m.begin(cat("uniform default ", vp::typeName<T>()));
  UniformNoise<T> noise;
  Moments s;
  for (int i = 0; i < draws; ++i) {
    s.add(double(noise()));
  }
  using L = std::numeric_limits<T>;
  const double halfMin = double(L::lowest()) / 2 - 1, halfMax = double(L::max()) / 2 + 1;
  m.check(s.lo >= halfMin && s.hi <= halfMax && s.hi - s.lo > (halfMax - halfMin) * .9, "uniform-default", [&] { return cat(s.lo, " ", s.hi); });
}
SCENARIO(uniform_bytes) { uniformInts<unsigned char>(0, 255); }
SCENARIO(uniform_signed_bytes) { uniformInts<signed char>(-128, 127); }
SCENARIO(uniform_shorts) { uniformInts<short>(-32768, 32767); }
SCENARIO(uniform_ints) { uniformInts<int>(-2147483648l, 2147483647l); }
SCENARIO(uniform_longs) { uniformInts<long>(-(1l << 40), 1l << 40); }
SCENARIO(uniform_unsigned) { uniformInts<unsigned int>(0, 4294967295l); }

template <typename T>
void uniformReals() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 6 * m.scale; ++k) {
    const T a = T(r.real(-100, 100)), b = a + T(r.real(.1, 200));
    const std::size_t seed = vp::anySeed(r);
    m.begin(cat("uniform ", vp::typeName<T>(), " in ", a, "..", b, " seed ", seed));
    UniformNoise<T> noise(a, b, seed);
    Moments s;
    for (int i = 0; i < draws; ++i) {
      s.add(double(noise()));
    }
    m.check(s.lo >= a && s.hi <= b, "uniform-bounds", [&] { return cat(s.lo, " ", s.hi); });
    follows(s, (double(a) + b) / 2, (double(b) - a) / std::sqrt(12), 0, "uniform-moments", 1.8);
    m.check(s.lo < a + (b - a) / 50 && s.hi > b - (b - a) / 50, "uniform-reaches-all");
    reproducible<T>("uniform", [&](std::size_t sd) { return UniformNoise<T>(a, b, sd); }, vp::smallValues<T>(r, 40), true);
    additive<T>([&](std::size_t sd) { return UniformNoise<T>(a, b, sd); }, vp::smallValues<T>(r, 40));
    // Complex: independent parts
    using C = std::complex<T>;
    const T c = T(r.real(-100, 100)), d = c + T(r.real(.1, 200));
    m.begin(cat("uniform complex ", vp::typeName<T>(), " in ", a, "..", b, " and ", c, "..", d, " seed ", seed));
    UniformNoise<C> complex(C(a, c), C(b, d), seed);
    Moments re, im;
    double cov = 0;
    for (int i = 0; i < draws; ++i) {
      const C v = complex();
      re.add(v.real());
      im.add(v.imag());
      cov += (v.real() - (a + b) / 2.) / (b - a) * (v.imag() - (c + d) / 2.) / (d - c);
    }
    m.check(re.lo >= a && re.hi <= b && im.lo >= c && im.hi <= d, "uniform-bounds");
    follows(re, (double(a) + b) / 2, (double(b) - a) / std::sqrt(12), 0, "uniform-moments", 1.8);
    follows(im, (double(c) + d) / 2, (double(d) - c) / std::sqrt(12), 0, "uniform-moments", 1.8);
    m.check(std::fabs(cov / draws) < .02, "complex-parts-independent", [&] { return cat(cov / draws); });
    reproducible<C>("uniform", [&](std::size_t sd) { return UniformNoise<C>(C(a, c), C(b, d), sd); }, vp::smallValues<C>(r, 40), true);
    additive<C>([&](std::size_t sd) { return UniformNoise<C>(C(a, c), C(b, d), sd); }, vp::smallValues<C>(r, 40));
  }
}
SCENARIO(uniform_floats) { uniformReals<float>(); }
SCENARIO(uniform_doubles) { uniformReals<double>(); }

// ------------------------------------------------------------------ Gaussian

template <typename T>
void gaussian() {
  auto& r = mon().rng;
  auto& m = mon();
  const bool integral = std::is_integral<T>::value;
  for (int k = 0; k < 10 * m.scale; ++k) {
    const T mean = T(std::is_unsigned<T>::value ? r.real(400, 500) : r.real(-500, 500));
    const T stdev = T(r.real(integral ? 10 : .5, 30));
    const std::size_t seed = vp::anySeed(r);
    m.begin(cat("Gaussian ", vp::typeName<T>(), " ", mean, " +- ", stdev, " seed ", seed));
    GaussianNoise<T> noise(mean, stdev, seed);
    Moments s;
    int within = 0;
    for (int i = 0; i < draws; ++i) {
      const double v = double(noise());
      s.add(v);
      within += std::fabs(v - double(mean)) < double(stdev);
    }
    follows(s, double(mean), double(stdev), integral ? 1 : 0, "gaussian-moments");
    m.check(std::fabs(within / double(draws) - .6827) < (integral ? .1 : .03), "gaussian-shape", [&] { return cat(within / double(draws)); });
    reproducible<T>("Gaussian", [&](std::size_t sd) { return GaussianNoise<T>(mean, stdev, sd); }, vp::smallValues<T>(r, 40), true);
    additive<T>([&](std::size_t sd) { return GaussianNoise<T>(mean, stdev, sd); }, vp::smallValues<T>(r, 40, 0, 99));
  }
  m.begin(cat("Gaussian default ", vp::typeName<T>()));
  GaussianNoise<T> standard(T(0), T(1), 12);
  if (not integral) {
    Moments s;
    for (int i = 0; i < draws; ++i) {
      s.add(double(standard()));
    }
    follows(s, 0, 1, 0, "gaussian-moments");
  }
}
SCENARIO(gaussian_ints) { gaussian<int>(); }
SCENARIO(gaussian_shorts) { gaussian<short>(); }
SCENARIO(gaussian_floats) { gaussian<float>(); }
SCENARIO(gaussian_doubles) { gaussian<double>(); }
SCENARIO(gaussian_complexes) {
  using C = std::complex<double>;
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 10 * m.scale; ++k) {
    const C mean(r.real(-100, 100), r.real(-100, 100)), stdev(r.real(1, 9), r.real(1, 9));
    const std::size_t seed = vp::anySeed(r);
    m.begin(cat("Gaussian complex ", mean, " +- ", stdev, " seed ", seed));
    GaussianNoise<C> noise(mean, stdev, seed);
    Moments re, im;
    for (int i = 0; i < draws; ++i) {
      const C v = noise();
      re.add(v.real());
      im.add(v.imag());
    }
    follows(re, mean.real(), stdev.real(), 0, "gaussian-moments");
    follows(im, mean.imag(), stdev.imag(), 0, "gaussian-moments");
    reproducible<C>("Gaussian", [&](std::size_t sd) { return GaussianNoise<C>(mean, stdev, sd); }, vp::smallValues<C>(r, 40), true);
    additive<C>([&](std::size_t sd) { return GaussianNoise<C>(mean, stdev, sd); }, vp::smallValues<C>(r, 40));
  }
}

// ------------------------------------------------------------------ Poisson

template <typename T, template <typename> class TNoise>
void poisson(const std::string& name) {
  auto& r = mon().rng;
  auto& m = mon();
  const long max = sizeof(T) == 1 ? 40 : 2000;
  for (int k = 0; k < 6 * m.scale; ++k) {
    const T mean = T(r.chance(2) ? r.range(1, 12) : r.range(12, max));
    const std::size_t seed = vp::anySeed(r);
    m.begin(cat(name, " ", vp::typeName<T>(), " ", long(mean), " seed ", seed));
    TNoise<T> noise(mean, seed);
    Moments s;
    for (int i = 0; i < draws; ++i) {
      s.add(double(noise()));
    }
    m.check(s.lo >= 0, "poisson-positive");
    follows(s, double(mean), std::sqrt(double(mean)), 0, "poisson-moments", 3 + 1. / double(mean));
    // Shot noise, whatever the mean of the generator
    const T other = T(r.chance(2) ? r.range(1, 12) : r.range(12, max));
    m.begin(cat(name, " ", vp::typeName<T>(), " applied to ", long(other), " with mean ", long(mean), " seed ", seed));
    TNoise<T> shot(mean, seed);
    Moments t, zero, plain;
    for (int i = 0; i < draws; ++i) {
      t.add(double(shot(other)));
      if (i % 8 == 0) { // The mean of the generator still holds
        plain.add(double(shot()));
      }
      if (i % 50 == 0) {
        zero.add(double(shot(T(0))));
      }
    }
    follows(t, double(other), std::sqrt(double(other)), 0, "shot-noise-moments", 3 + 1. / double(other));
    follows(plain, double(mean), std::sqrt(double(mean)), 0, "poisson-interleaved-moments", 3 + 1. / double(mean));
    m.check(zero.lo == 0 && zero.hi == 0, "shot-noise-zero", [&] { return cat(zero.lo, " ", zero.hi); });
    reproducible<T>(name, [&](std::size_t sd) { return TNoise<T>(mean, sd); }, vp::smallValues<T>(r, 40, 0, max - 1), false);
  }
}
SCENARIO(poisson_ints) { poisson<int, PoissonNoise>("Poisson"); }
SCENARIO(poisson_shorts) { poisson<short, PoissonNoise>("Poisson"); }
SCENARIO(poisson_doubles) { poisson<double, PoissonNoise>("Poisson"); }
SCENARIO(poisson_floats) { poisson<float, PoissonNoise>("Poisson"); }
SCENARIO(stable_poisson_ints) { poisson<int, StablePoissonNoise>("stable Poisson"); }
SCENARIO(stable_poisson_longs) { poisson<long, StablePoissonNoise>("stable Poisson"); }
SCENARIO(stable_poisson_doubles) { poisson<double, StablePoissonNoise>("stable Poisson"); }
SCENARIO(poisson_complexes) {
  using C = std::complex<double>;
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 6 * m.scale; ++k) {
    const C mean(r.range(1, 50), r.range(1, 50)), other(r.range(1, 50), r.range(1, 50));
    const std::size_t seed = vp::anySeed(r);
    m.begin(cat("Poisson complex ", mean, " ", other, " seed ", seed));
    PoissonNoise<C> noise(mean, seed), shot(mean, seed);
    Moments re, im, sre, sim;
    for (int i = 0; i < draws; ++i) {
      const C v = noise(), w = shot(other);
      re.add(v.real());
      im.add(v.imag());
      sre.add(w.real());
      sim.add(w.imag());
    }
    follows(re, mean.real(), std::sqrt(mean.real()), 0, "poisson-moments", 4);
    follows(im, mean.imag(), std::sqrt(mean.imag()), 0, "poisson-moments", 4);
    follows(sre, other.real(), std::sqrt(other.real()), 0, "shot-noise-moments", 4);
    follows(sim, other.imag(), std::sqrt(other.imag()), 0, "shot-noise-moments", 4);
  }
}

/// The noise of a pixel depends on the seed, the rank and the value only
template <typename T>
void stable() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 150 * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, 2, 200);
    const auto n = vp::product(shape);
    const std::size_t seed = vp::anySeed(r);
    const auto in = vp::smallValues<T>(r, n, 0, r.chance(2) ? 15 : 1000);
    auto changed = in;
    std::set<long> where;
    for (int c = r.range(1, 1 + n / 3); c > 0; --c) {
      const auto i = r.range(0, n - 1);
      changed[i] = T(r.range(0, 500));
      where.insert(i);
    }
    m.begin(cat("stable Poisson ", vp::typeName<T>(), shape, " seed ", seed, " ", vp::show(in)));
    Raster<T, 2> a(pos<2>(shape), in), b(pos<2>(shape), changed), c(pos<2>(shape), in), d(pos<2>(shape), in);
    a.apply(StablePoissonNoise<T>(T(0), seed));
    b.apply(StablePoissonNoise<T>(T(3), seed));
    auto noise = StablePoissonNoise<T>(T(1), seed);
    c.apply(noise);
    for (long i = 0; i < n; ++i) {
      if (in[i] == changed[i]) {
        m.check(a[i] == b[i], "stable", [&] { return cat("pixel ", i, " ", a[i], " then ", b[i]); });
      }
    }
    m.check(a == c, "stable-reproducible");
    // The rank and the seed matter
    if (n >= 100) {
      a.fill(T(1000));
      b.fill(T(1000));
      a.apply(StablePoissonNoise<T>(T(0), seed));
      b.apply(StablePoissonNoise<T>(T(0), seed ^ 6));
      const std::set<T> values(a.begin(), a.end());
      m.check(values.size() > 20, "rank-matters", [&] { return cat(values.size(), " distinct values"); });
      m.check(a != b, "seed-matters");
    }
  }
}
SCENARIO(stable_ints) { stable<int>(); }
SCENARIO(stable_doubles) { stable<double>(); }

// ------------------------------------------------------------------ impulse

template <typename T>
void impulses() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 12 * m.scale; ++k) {
    std::map<T, double> p;
    const int n = r.range(1, 5);
    while (int(p.size()) < n) {
      p[T(r.range(1, 100))] = r.chance(6) ? 0 : r.real(.01, .2);
    }
    double sum = 0;
    for (const auto& e : p) {
      sum += e.second;
    }
    const int mode = r.range(0, 3);
    if (mode > 0 && sum > 0) { // Up to 1, nearly, or more
      const double target = mode == 1 ? 1 : mode == 3 ? 1 - std::exp(-r.real(2.3, 9)) : r.chance(3) ? 1 + std::exp(-r.real(2.3, 9)) : r.real(1.1, 3);
      for (auto& e : p) {
        e.second *= target / sum;
      }
      sum = target;
    }
    if (sum == 0) {
      continue;
    }
    const std::size_t seed = vp::anySeed(r);
    std::string text = cat("impulse ", vp::typeName<T>(), " seed ", seed);
    for (const auto& e : p) {
      text += cat(" ", double(e.first), ":", e.second);
    }
    m.begin(text);
    ImpulseNoise<T> noise(p, seed);
    std::map<T, long> counts;
    const T in(101);
    long untouched = 0;
    for (int i = 0; i < draws; ++i) {
      const T v = noise(in);
      if (v == in) {
        ++untouched;
      } else {
        m.check(p.count(v) == 1, "impulse-values", [&] { return vp::show(v); });
        ++counts[v];
      }
    }
    m.count("values drawn", draws);
    const double norm = std::max(sum, 1.);
    const auto close = [&](long seen, double proba, const std::string& what) {
      m.check(std::fabs(seen - proba * draws) <= .5 + sigmas * std::sqrt(std::max(0., proba * (1 - proba)) * draws), "impulse-frequencies", [&] {
        return cat(what, " drawn ", seen, " expected ", proba * draws);
      });
    };
    for (const auto& e : p) {
      close(counts[e.first], e.second / norm, vp::show(e.first));
    }
    close(untouched, mode == 1 || mode == 2 ? 0 : std::max(0., 1 - sum), "input");
    if (mode == 1 || mode == 2) {
      m.check(untouched == 0, "impulse-frequencies", [&] { return cat("input untouched ", untouched); });
    } else if ((1 - sum) * draws > 60) {
      m.check(untouched > 0, "impulse-frequencies", [&] { return cat("input never untouched"); });
    }
    reproducible<T>("impulse", [&](std::size_t sd) { return ImpulseNoise<T>(p, sd); }, vp::smallValues<T>(r, 40), false);
    // Single value
    const double single = r.chance(4) ? double(r.chance(2)) : r.chance(3) ? 1 - std::exp(-r.real(2.3, 7)) : r.chance(3) ? std::exp(-r.real(2.3, 7)) : r.unit();
    m.begin(cat("impulse ", vp::typeName<T>(), " single ", single, " seed ", seed));
    ImpulseNoise<T> one(T(5), single, seed);
    long hits = 0;
    for (int i = 0; i < draws; ++i) {
      const T v = one(in);
      hits += v == T(5);
      m.check(v == T(5) || v == in, "impulse-values", [&] { return vp::show(v); });
    }
    close(hits, single, "single value");
    m.check((hits > 0 || single * draws < 60) && (hits < draws || (1 - single) * draws < 60), "impulse-frequencies", [&] {
      return cat("single value of probability ", single, " drawn ", hits, " times");
    });
    m.check((hits == 0 || single > 0) && (hits == draws || single < 1), "impulse-frequencies", [&] { return cat("single value of probability ", single, " drawn ", hits); });
    m.check(ImpulseNoise<T>(T(5), 0, seed)() == T(0), "impulse-default-input");
    // Salt and pepper
    const double salt = r.real(0, .5), pepper = r.real(0, .5);
    m.begin(cat("salt and pepper ", vp::typeName<T>(), " ", salt, " ", pepper, " seed ", seed));
    auto sp = ImpulseNoise<T>::saltAndPepper(salt, pepper, T(90), T(10), seed);
    auto def = ImpulseNoise<T>::saltAndPepper(salt, pepper, Limits<T>::max(), Limits<T>::min(), seed);
    long salts = 0, peppers = 0, maxs = 0, mins = 0;
    for (int i = 0; i < draws; ++i) {
      const T v = sp(in), w = def(in);
      salts += v == T(90);
      peppers += v == T(10);
      maxs += w == std::numeric_limits<T>::max();
      mins += w == std::numeric_limits<T>::lowest();
      m.check(v == in || v == T(90) || v == T(10), "impulse-values");
      m.check(w == in || w == std::numeric_limits<T>::max() || w == std::numeric_limits<T>::lowest(), "impulse-values");
    }
    close(salts, salt, "salt");
    close(peppers, pepper, "pepper");
    close(maxs, salt, "max");
    close(mins, pepper, "min");
  }
}
SCENARIO(impulse_ints) { impulses<int>(); }
SCENARIO(impulse_bytes) { impulses<unsigned char>(); }
SCENARIO(impulse_doubles) { impulses<double>(); }

/// As many pixels as in real images: same contract
template <typename T, typename TMake>
void longRun(const std::string& name, TMake&& make) {
  auto& r = mon().rng;
  auto& m = mon();
  const auto seed = vp::anySeed(r);
  const auto in = vp::smallValues<T>(r, vp::sizeLarge(r, 150000), 1, 60);
  m.begin(cat(name, " ", vp::typeName<T>(), " ", in.size(), " pixels seed ", seed));
  auto a = make(seed), b = make(seed);
  Sequence<T> s(in);
  s.apply(a);
  std::size_t i = 0;
  for (; i < in.size() && s[i] == b(in[i]); ++i) {
  }
  m.check(i == in.size(), "apply-per-pixel", [&] { return cat("pixel ", i); });
  auto c = make(seed), d = make(seed);
  Raster<T, 1> raster({Index(in.size())});
  raster.generate(c);
  for (i = 0; i < in.size() && raster[i] == d(); ++i) {
  }
  m.check(i == in.size(), "generate-per-pixel", [&] { return cat("pixel ", i); });
  raster.generate(c); // Goes on
  for (i = 0; i < in.size() && raster[i] == d(); ++i) {
  }
  m.check(i == in.size(), "generate-goes-on", [&] { return cat("pixel ", i); });
  s.apply(a);
  auto again = make(seed);
  Sequence<T> other(in);
  other.apply(again);
  other.apply(again);
  m.check(s == other, "apply-goes-on");
}
SCENARIO(long_runs) {
  for (int k = 0; k < 2 * mon().scale; ++k) {
    longRun<int>("uniform", [](std::size_t s) { return UniformNoise<int>(1, 99, s); });
    longRun<double>("uniform", [](std::size_t s) { return UniformNoise<double>(1, 99, s); });
    longRun<std::complex<float>>("uniform", [](std::size_t s) { return UniformNoise<std::complex<float>>({1, 2}, {30, 40}, s); });
    longRun<float>("Gaussian", [](std::size_t s) { return GaussianNoise<float>(1, 99, s); });
    longRun<short>("Gaussian", [](std::size_t s) { return GaussianNoise<short>(1, 99, s); });
    longRun<int>("Poisson", [](std::size_t s) { return PoissonNoise<int>(7, s); });
    longRun<double>("Poisson", [](std::size_t s) { return PoissonNoise<double>(70, s); });
    longRun<int>("stable Poisson", [](std::size_t s) { return StablePoissonNoise<int>(7, s); });
    longRun<int>("impulse", [](std::size_t s) { return ImpulseNoise<int>({{100, .1}, {200, .3}}, s); });
  }
}
SCENARIO(long_stable) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 3 * m.scale; ++k) {
    const auto seed = vp::anySeed(r);
    const auto in = vp::smallValues<int>(r, vp::sizeLarge(r, 150000), 0, 100);
    m.begin(cat("stable Poisson on ", in.size(), " pixels seed ", seed));
    auto changed = in;
    for (auto& e : changed) {
      e = r.chance(10) ? int(r.range(0, 900)) : e;
    }
    changed.resize(changed.size() - changed.size() / r.range(2, 90)); // A prefix
    Sequence<int> a(in), b(changed);
    a.apply(StablePoissonNoise<int>(0, seed));
    b.apply(StablePoissonNoise<int>(3, seed));
    std::size_t i = 0;
    for (; i < changed.size() && (changed[i] != in[i] || a[i] == b[i]); ++i) {
    }
    m.check(i == changed.size(), "stable", [&] { return cat("pixel ", i); });
    // The noise is not the same all along
    std::map<int, std::set<int>> noises;
    for (std::size_t j = in.size() / 2; j < in.size(); ++j) {
      noises[in[j]].insert(a[j]);
    }
    m.check(in.size() < 10000 || (noises[80].size() > 1 && noises[100].size() > 1), "rank-matters");
  }
}

SCENARIO(random_containers) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 100 * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, 3, 300);
    m.begin(cat("random raster ", shape));
    const auto raster = Litl::random<float, 3>(pos<3>(shape));
    m.check(toVec(raster.shape()) == shape && long(raster.size()) == vp::product(shape), "random-shape");
    bool in = true;
    for (auto e : raster) {
      in &= e >= std::numeric_limits<float>::lowest() / 2 && e <= std::numeric_limits<float>::max() / 2;
    }
    const auto sequence = Litl::random<short>(vp::product(shape));
    m.check(long(sequence.size()) == vp::product(shape), "random-shape");
    for (auto e : sequence) {
      in &= e >= -16385 && e <= 16384;
    }
    m.check(in, "random-bounds");
  }
}

VP_MAIN
