// BUILD: name=run san=asan parts=3
// RULE: A case is (element type, numbers of rows and columns, values); elements, shape, determinant and inverse are compared with those of
//   a nested vector, and copies are modified, destroyed and assigned while the others are watched.
//   Non-trivial: more than one element. Distinct: by type, dimensions and values.
#include "litl.hpp"

#include "LitlRaster/Matrix.h"

#include <list>
#include <memory>
#include <numeric>

using Litl::Matrix;
using vp::cat;
using vp::mon;

using Real = long double;
using Table = std::vector<std::vector<Real>>;

/// Determinant by elimination with full pivoting, and inverse (if it exists)
Real reference(Table a, Table& inverse) {
  const int n = a.size();
  inverse = Table(n, std::vector<Real>(n));
  for (int i = 0; i < n; ++i) {
    inverse[i][i] = 1;
  }
  Real d = 1;
  for (int k = 0; k < n; ++k) {
    int best = k;
    for (int i = k; i < n; ++i) {
      if (std::fabs(a[i][k]) > std::fabs(a[best][k])) {
        best = i;
      }
    }
    if (a[best][k] == 0) {
      return 0;
    }
    if (best != k) {
      std::swap(a[best], a[k]);
      std::swap(inverse[best], inverse[k]);
      d = -d;
    }
    d *= a[k][k];
    const Real p = a[k][k];
    for (int j = 0; j < n; ++j) {
      a[k][j] /= p;
      inverse[k][j] /= p;
    }
    for (int i = 0; i < n; ++i) {
      const Real f = a[i][k];
      if (i != k && f != 0) {
        for (int j = 0; j < n; ++j) {
          a[i][j] -= f * a[k][j];
          inverse[i][j] -= f * inverse[k][j];
        }
      }
    }
  }
  return d;
}

Real norm(const Table& a) {
  Real out = 0;
  for (auto& row : a) {
    Real s = 0;
    for (auto e : row) {
      s += std::fabs(e);
    }
    out = std::max(out, s);
  }
  return out;
}

template <typename T, Index N, Index M>
void same(const Matrix<T, N, M>& m, const Table& expected, const char* key) {
  bool ok = m.size() == std::size_t(N * M) && m.shape()[0] == N && m.shape()[1] == M && m.shape().size() == 2;
  for (Index i = 0; i < N && ok; ++i) {
    for (Index j = 0; j < M; ++j) {
      const T e = T(expected[i][j]);
      ok = ok && m(i, j) == e && &m(i, j) == m.data() + (i * M + j) && m[i * M + j] == e;
    }
  }
  mon().check(ok, key, [&] { return cat(N, " by ", M, " matrix is ", list(m)); });
  mon().count("elements", N * M);
}

/// Element access with constant indices
template <typename T, Index N, Index M, std::size_t... Is>
bool constantIndices(const Matrix<T, N, M>& m, std::index_sequence<Is...>) {
  bool out = true;
  (void)std::initializer_list<int> {(out &= &m.template at<Is / M, Is % M>() == m.data() + Is, 0)...};
  return out;
}

template <typename T, Index N, Index M>
Table draw(Matrix<T, N, M>& m) {
  auto& r = mon().rng;
  Table out(N, std::vector<Real>(M));
  const long max = r.chance(3) ? 1 : r.chance(2) ? 5 : 20;
  for (Index i = 0; i < N; ++i) {
    for (Index j = 0; j < M; ++j) {
      const T e = std::is_integral<T>::value || r.chance(2) ? T(r.range(std::is_unsigned<T>::value ? 0 : -max, max)) : T(r.real(-max, max));
      out[i][j] = e;
      m(i, j) = e;
    }
  }
  return out;
}

template <typename T, Index N, Index M>
void rectangular() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 60 * m.scale; ++k) {
    m.begin(cat(vp::typeName<T>(), " ", N, " by ", M));
    Matrix<T, N, M> zero;
    Table zeros(N, std::vector<Real>(M));
    same(zero, zeros, "default-is-zero");
    Table ones = zeros;
    for (Index i = 0; i < std::min(N, M); ++i) {
      ones[i][i] = 1;
    }
    const auto identity = Matrix<T, N, M>::identity();
    same(identity, ones, "identity");
    // Any number of values which fits, in several sorts of iterables
    std::vector<T> values(r.range(0, std::min(N, M)));
    Table diagonals = zeros;
    for (std::size_t i = 0; i < values.size(); ++i) {
      diagonals[i][i] = values[i] = T(r.range(0, 50));
    }
    same(Matrix<T, N, M>::diagonal(values), diagonals, "diagonal");
    same(Matrix<T, N, M>::diagonal(std::list<T>(values.begin(), values.end())), diagonals, "diagonal");
    values.resize(std::min(N, M), T(3));
    Litl::Vector<T, std::min(N, M)> vector;
    std::copy(values.begin(), values.end(), vector.begin());
    diagonals = zeros;
    for (std::size_t i = 0; i < values.size(); ++i) {
      diagonals[i][i] = values[i];
    }
    same(Matrix<T, N, M>::diagonal(vector), diagonals, "diagonal");
    // Elements, one at a time
    auto a = std::make_unique<Matrix<T, N, M>>();
    auto table = draw(*a);
    m.begin(cat(vp::typeName<T>(), " ", N, " by ", M, " ", list(*a)), N * M > 1);
    same(*a, table, "elements");
    m.check(constantIndices(*a, std::make_index_sequence<N * M>()), "constant-indices");
    // Copies are independent
    Matrix<T, N, M> b(*a), c, d, e;
    c = *a;
    d = std::move(*std::make_unique<Matrix<T, N, M>>(*a));
    Matrix<T, N, M> moved(std::move(*std::make_unique<Matrix<T, N, M>>(*a)));
    same(b, table, "copy");
    same(c, table, "copy-assignment");
    same(d, table, "move-assignment");
    same(moved, table, "move");
    m.check(b == *a && not(b != c), "equal");
    const auto before = table;
    const Index i = r.range(0, N - 1), j = r.range(0, M - 1);
    table[i][j] += 1;
    (*a)(i, j) += 1;
    same(*a, table, "write-element");
    same(b, before, "copy-is-independent");
    m.check(b != *a, "equal");
    b = c; // Does not write through the source of b
    same(*a, table, "assignment-keeps-other-copies");
    e = *a;
    a = nullptr;
    e = e;
    same(e, table, "copy-outlives-source");
    e = c;
    same(e, before, "copy-outlives-source");
    // Element-wise operations
    c += c;
    c *= T(2);
    auto four = before;
    for (auto& row : four) {
      for (auto& v : row) {
        v *= 4;
      }
    }
    same(c, four, "element-wise");
    same(e + e, [&] {
      auto out = before;
      for (auto& row : out) {
        for (auto& v : row) {
          v *= 2;
        }
      }
      return out;
    }(), "element-wise");
    same(e, before, "operands-unchanged");
  }
}

template <typename T, Index N>
void square() {
  auto& r = mon().rng;
  auto& m = mon();
  const Real eps = std::numeric_limits<T>::epsilon();
  for (int k = 0; k < 200 * m.scale; ++k) {
    Matrix<T, N> a;
    Table table = draw(a);
    const int kind = r.range(0, 3);
    if (kind == 0 && N > 1) { // Singular
      const Index row = r.range(0, N - 1);
      for (Index j = 0; j < N; ++j) {
        a(row, j) = T(0);
        table[row][j] = 0;
      }
    } else if (kind == 1) { // Well conditioned
      for (Index i = 0; i < N; ++i) {
        a(i, i) += T(100);
        table[i][i] = a(i, i);
      }
    } else if (kind == 2) { // Permutation
      std::vector<Index> p(N);
      std::iota(p.begin(), p.end(), 0);
      for (Index i = N - 1; i > 0; --i) {
        std::swap(p[i], p[r.range(0, i)]);
      }
      a.fill(T(0));
      table.assign(N, std::vector<Real>(N));
      for (Index i = 0; i < N; ++i) {
        a(i, p[i]) = T(table[i][p[i]] = i + 1);
      }
    }
    m.begin(cat("square ", vp::typeName<T>(), " ", list(a)), N > 1);
    same(a, table, "elements");
    Table inverse;
    const Real d = reference(table, inverse);
    const Real size = norm(table);
    const Matrix<T, N> copy(a);
    const auto determinant = [&](const Matrix<T, N>& x, const char* key) {
      const Real seen = x.determinant();
      m.check(std::fabs(seen - d) <= 64 * N * N * eps * std::pow(std::max(size, Real(1e-3)), N), key, [&] { return cat(seen, " expected ", d); });
    };
    determinant(a, "determinant");
    same(a, table, "determinant-keeps-elements");
    a.fill(T(7)); // The determinant of a copy is not that of its source
    determinant(copy, "copy-determinant");
    a = copy;
    determinant(a, "assigned-determinant");
    const Real condition = d == 0 ? INFINITY : size * norm(inverse);
    if (condition < 1000) {
      Matrix<T, N>* out = &a.inverse();
      m.check(out == &a, "returns-this");
      bool ok = true;
      for (Index i = 0; i < N; ++i) {
        for (Index j = 0; j < N; ++j) {
          ok &= std::fabs(a(i, j) - inverse[i][j]) <= 64 * N * N * eps * condition * norm(inverse);
        }
      }
      m.check(ok, "inverse", [&] { return cat(list(a), " of ", list(copy)); });
      same(copy, table, "inverse-keeps-copies");
      a.inverse();
      ok = true;
      for (Index i = 0; i < N; ++i) {
        for (Index j = 0; j < N; ++j) {
          ok &= std::fabs(a(i, j) - table[i][j]) <= 128 * N * N * eps * condition * condition * size;
        }
      }
      m.check(ok, "inverse-twice", [&] { return cat(list(a), " of ", list(copy)); });
      m.count("inverses", 1);
    }
  }
}

template <typename T>
void integers() {
  rectangular<T, 1, 1>();
  rectangular<T, 1, 4>();
  rectangular<T, 4, 1>();
  rectangular<T, 2, 2>();
  rectangular<T, 2, 3>();
  rectangular<T, 3, 2>();
  rectangular<T, 3, 3>();
  rectangular<T, 4, 4>();
  rectangular<T, 5, 7>();
  rectangular<T, 7, 5>();
}

template <typename T>
void reals() {
  integers<T>();
  square<T, 1>();
  square<T, 2>();
  square<T, 3>();
  square<T, 4>();
  square<T, 5>();
  square<T, 6>();
}

#if PART == 0
SCENARIO(ints) { integers<int>(); }
SCENARIO(bytes) { integers<unsigned char>(); }
#elif PART == 1
SCENARIO(floats) { reals<float>(); }
#else
SCENARIO(doubles) { reals<double>(); }
#endif

VP_MAIN
