// BUILD: name=run san=asan
// RULE: A case is a data set (type, size, distribution of the values: constant, few distinct, sorted, reversed, extreme, offset,
//   random) and a random history of statistics requests, each of which is compared with its definition computed on a sorted copy in
//   extended precision. Non-trivial: at least two elements. Distinct: by data set.
#include "litl.hpp"

#include "LitlContainer/Sequence.h"

#include <list>

using Litl::DataDistribution;
using Wide = long double;

template <typename T>
std::vector<T> dataset(vp::Rng& r, std::string& kind) {
  using L = std::numeric_limits<T>;
  const long n = r.chance(60) ? vp::sizeLarge(r, 70000) : r.chance(12) ? vp::sizeBiased(r, 1100) : vp::sizeBiased(r, 40);
  std::vector<T> v(n);
  const int k = r.range(0, 6);
  kind = std::vector<std::string> {"constant", "few", "small", "extreme", "offset", "random", "fractional"}[k];
  const auto draw = [&](double lo, double hi) {
    return T(std::max(double(L::lowest()), std::min(double(L::max()) * .999, r.real(lo, hi))));
  };
  const T c = draw(-50, 50);
  for (auto& e : v) {
    switch (k) {
      case 0:
        e = c;
        break;
      case 1:
        e = T(r.range(0, 3));
        break;
      case 2:
        e = vp::smallValue<T>(r, -20, 20);
        break;
      case 3:
        e = std::is_integral<T>::value ? (r.chance(3) ? L::max() : r.chance(2) ? L::lowest() : T(L::max() / 2)) : T(r.real(-1e6, 1e6));
        break;
      case 4:
        e = T(std::is_integral<T>::value ? (L::max() / 2 + r.range(0, 20)) : 1000 + r.range(0, 20));
        break;
      case 5:
        e = draw(-1e5, 1e5);
        break;
      default:
        e = std::is_integral<T>::value ? draw(0, 100) : T(r.range(-400, 400)) / 16;
    }
  }
  switch (r.range(0, 3)) {
    case 0:
      std::sort(v.begin(), v.end());
      kind += " sorted";
      break;
    case 1:
      std::sort(v.rbegin(), v.rend());
      kind += " reversed";
      break;
  }
  return v;
}

template <typename T>
struct Oracle {
  std::vector<T> values, sorted;
  Wide eps, absSum = 0, sum2 = 0;

  explicit Oracle(const std::vector<T>& v) : values(v), sorted(v) {
    std::sort(sorted.begin(), sorted.end());
    using F = typename DataDistribution<T>::Floating;
    eps = std::numeric_limits<F>::epsilon();
    for (auto e : v) {
      absSum += std::fabs(Wide(e));
      sum2 += Wide(e) * Wide(e);
    }
  }
  Wide n() const {
    return values.size();
  }
  Wide maxAbs() const {
    return std::max(std::fabs(Wide(sorted.front())), std::fabs(Wide(sorted.back())));
  }
  Wide sum() const {
    Wide s = 0;
    for (auto e : sorted) {
      s += e;
    }
    return s;
  }
  Wide mean() const {
    return sum() / n();
  }
  Wide variance(bool unbiased) const {
    Wide s = 0;
    const auto m = mean();
    for (auto e : sorted) {
      s += (e - m) * (e - m);
    }
    return s / (n() - unbiased);
  }
  template <typename U>
  static Wide quantileOf(const std::vector<U>& s, double q) {
    const Wide x = Wide(q) * (s.size() - 1);
    const auto f = std::min(std::size_t(x), s.size() - 1);
    const auto d = x - f;
    return f + 1 < s.size() ? Wide(s[f]) * (1 - d) + Wide(s[f + 1]) * d : Wide(s[f]);
  }
  Wide quantile(double q) const {
    return quantileOf(sorted, q);
  }
  Wide mad() const {
    std::vector<Wide> d;
    const auto m = quantile(.5);
    for (auto e : sorted) {
      d.push_back(std::fabs(e - m));
    }
    std::sort(d.begin(), d.end());
    return quantileOf(d, .5);
  }
  template <typename B>
  std::vector<std::size_t> histogram(const B& bins) const {
    std::vector<Wide> b(bins.begin(), bins.end());
    std::vector<std::size_t> out(b.size() - 1);
    for (auto e : values) {
      for (std::size_t i = 0; i + 1 < b.size(); ++i) {
        if (e >= b[i] && (e < b[i + 1] || (i + 2 == b.size() && e == b[i + 1]))) {
          ++out[i];
          break;
        }
      }
    }
    return out;
  }
};

template <typename T, typename U>
std::vector<U> makeBins(vp::Rng& r, const std::vector<T>& sorted) {
  std::set<U> bins;
  const int n = r.range(2, 9);
  const auto lo = double(sorted.front()), hi = double(sorted.back());
  const auto limit = [](double v) { // Representable
    const double a = double(std::numeric_limits<U>::lowest()), b = double(std::numeric_limits<U>::max()) * .999999;
    return U(std::max(a, std::min(b, v)));
  };
  for (int i = 0; i < n; ++i) {
    switch (r.range(0, 3)) {
      case 0:
      case 1:
        bins.insert(U(sorted[r.range(0, sorted.size() - 1)])); // Edges are values
        break;
      case 2:
        bins.insert(limit(std::floor(r.real(lo, hi))));
        break;
      default:
        bins.insert(limit(r.real(lo - 3, hi + 3)));
    }
  }
  if (r.chance(12)) { // A single bound: no bin
    bins.erase(std::next(bins.begin()), bins.end());
    return {bins.begin(), bins.end()};
  }
  while (bins.size() < 2) {
    const auto only = double(*bins.begin());
    bins.insert(limit(only > 50 ? only / 2 : only + 9 + std::fabs(only) / 4));
  }
  return {bins.begin(), bins.end()};
}

template <typename T>
void request(DataDistribution<T>& d, const Oracle<T>& o, vp::Rng& r) {
  auto& m = mon();
  const auto close = [&](Wide seen, Wide expected, Wide tol, const char* key, const std::string& arg = "") {
    m.check(std::fabs(seen - expected) <= tol, key, [&] { return cat(arg, " ", seen, " expected ", expected); });
  };
  const auto n = o.values.size();
  const auto scale = 16 * o.eps * o.maxAbs();
  switch (r.range(0, 11)) {
    case 0:
      m.check(d.size() == n, "size");
      break;
    case 1:
      m.check(d.min() == o.sorted.front(), "min", [&] { return vp::show(d.min()); });
      break;
    case 2:
      m.check(d.max() == o.sorted.back(), "max", [&] { return vp::show(d.max()); });
      break;
    case 3:
      close(d.sum(), o.sum(), (n + 2) * o.eps * o.absSum, "sum");
      break;
    case 4:
      close(d.mean(), o.mean(), (n + 4) * o.eps * o.absSum / n, "mean");
      break;
    case 5: {
      const bool unbiased = n > 1 && r.chance(2);
      // Rounding errors are relative to the deviations, apart from that of the mean
      const auto tolerance = [&](Wide count) {
        const Wide ofMean = (n + 8) * o.eps * o.absSum / n;
        const Wide s2 = o.variance(false) * n;
        const bool isRounded = std::numeric_limits<T>::digits > std::numeric_limits<typename DataDistribution<T>::Floating>::digits;
        const Wide ofValues = isRounded ? o.eps * o.maxAbs() : 0;
        return (n * ofMean * ofMean + 4 * (n + 8) * o.eps * s2 + 4 * std::sqrt(n * s2) * ofValues) / count;
      };
      close(d.variance(unbiased), o.variance(unbiased), tolerance(n - unbiased), "variance", unbiased ? "unbiased" : "biased");
      if (n > 1) {
        close(d.variance(), o.variance(true), tolerance(n - 1), "variance", "default");
      }
      m.check(d.variance(unbiased) >= 0, "variance-sign");
      break;
    }
    case 6: {
      const auto k = r.range(0, n - 1);
      m.check(d.nth(k) == o.sorted[k], "nth", [&] { return cat("nth(", k, ") = ", vp::show(d.nth(k)), " expected ", vp::show(o.sorted[k])); });
      break;
    }
    case 7: {
      const double q = r.chance(3) ? double(r.range(0, 4)) / 4 : r.chance(2) && n > 1 ? double(r.range(0, n - 1)) / (n - 1) : r.unit();
      // The rounding of the rank moves the result by less than one ulp of the rank times the range
      const Wide range = Wide(o.sorted.back()) - Wide(o.sorted.front());
      close(d.quantile(q), o.quantile(q), scale + range * n * 4 * std::max<Wide>(o.eps, 2.3e-16), "quantile", cat(q));
      break;
    }
    case 8:
      close(d.median(), o.quantile(.5), scale, "median");
      break;
    case 9:
      close(d.mad(), o.mad(), 2 * scale, "mad");
      break;
    case 10: {
      const auto bins = makeBins<T, T>(r, o.sorted);
      const auto h = d.histogram(bins);
      const auto e = o.histogram(bins);
      m.check(h == e, "histogram", [&] { return cat("bins ", vp::show(bins), ": ", vp::show(h), " expected ", vp::show(e)); });
      break;
    }
    default: {
      using F = typename DataDistribution<T>::Floating;
      if (o.maxAbs() > 9e15) {
        break; // Not comparable without rounding
      }
      const auto bins = makeBins<T, F>(r, o.sorted);
      const Litl::Sequence<F> sequence(bins);
      const auto h = d.histogram(sequence);
      const auto e = o.histogram(bins);
      m.check(h == e, "histogram", [&] { return cat("floating bins ", vp::show(bins), ": ", vp::show(h), " expected ", vp::show(e)); });
    }
  }
  m.count("requests");
}

/// Those of the container itself
template <typename C, typename T>
void extrema(const C& c, const Oracle<T>& o) {
  auto& m = mon();
  m.check(c.min() == o.sorted.front(), "container-min", [&] { return vp::show(c.min()); });
  m.check(c.max() == o.sorted.back(), "container-max", [&] { return vp::show(c.max()); });
  const auto both = c.minmax();
  m.check(both.first == o.sorted.front() && both.second == o.sorted.back(), "container-minmax", [&] { return cat(both.first, " ", both.second); });
}

template <typename T>
void drive(int cases) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < cases * m.scale; ++k) {
    std::string kind;
    const auto v = dataset<T>(r, kind);
    const Oracle<T> o(v);
    m.begin(cat(vp::typeName<T>(), " ", v.size(), " values ", kind, " ", vp::show(v)), v.size() > 1);
    const int requests = r.range(1, 14);
    switch (r.range(0, 4)) {
      case 0: {
        DataDistribution<T> d {std::vector<T>(v)};
        for (int i = 0; i < requests; ++i) {
          request(d, o, r);
        }
        break;
      }
      case 1: {
        const Litl::Sequence<T> s(v);
        extrema(s, o);
        auto d = s.distribution();
        for (int i = 0; i < requests; ++i) {
          request(d, o, r);
        }
        m.check(std::equal(v.begin(), v.end(), s.begin(), s.end()), "data-unchanged");
        break;
      }
      case 2: {
        const Litl::VecRaster<T, 2> s({Index(v.size()), 1}, v);
        extrema(s, o);
        auto d = s.distribution();
        d.sort();
        for (int i = 0; i < requests; ++i) {
          request(d, o, r);
        }
        m.check(std::equal(v.begin(), v.end(), s.begin(), s.end()), "data-unchanged");
        break;
      }
      case 3: {
        const std::list<T> l(v.begin(), v.end());
        DataDistribution<T> d(l);
        auto copy = d;
        for (int i = 0; i < requests; ++i) {
          request(r.chance(2) ? d : copy, o, r);
        }
        break;
      }
      default: {
        auto data = v;
        const Litl::PtrRaster<T, 1> s({Index(v.size())}, data.data());
        extrema(s, o);
        auto d = s.distribution();
        data.assign(v.size(), T(1)); // Does not change the distribution
        for (int i = 0; i < requests; ++i) {
          request(d, o, r);
        }
      }
    }
  }
}

SCENARIO(chars) { drive<char>(1000); }
SCENARIO(bytes) { drive<unsigned char>(1000); }
SCENARIO(shorts) { drive<short>(1000); }
SCENARIO(unsigned_shorts) { drive<unsigned short>(1000); }
SCENARIO(ints) { drive<int>(1000); }
SCENARIO(unsigned_ints) { drive<unsigned int>(1000); }
SCENARIO(longs) { drive<long>(1000); }
SCENARIO(unsigned_longs) { drive<unsigned long>(1000); }
SCENARIO(floats) { drive<float>(1000); }
SCENARIO(doubles) { drive<double>(1000); }
SCENARIO(long_doubles) { drive<long double>(1000); }

VP_MAIN
