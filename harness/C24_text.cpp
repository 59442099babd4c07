// BUILD: name=run san=asan
// RULE: A case is a container streamed with given stream settings, a list of serialized arguments, a tuple utility called on a tuple,
//   array or container with functions which log their arguments, or an error and the lines appended to it. The text is compared with
//   one composed from the elements, and the log with the elements in order. Non-trivial: at least one element or line. Distinct: by
//   type, size, values and settings.
#include "litl.hpp"
#include "monitor.hpp"

#include <deque>
#include <iomanip>
#include <list>
#include <map>
#include <sstream>

#include "LitlContainer/AlignedBuffer.h"
#include "LitlContainer/Sequence.h"
#include "LitlTypes/Exceptions.h"
#include "LitlTypes/SeqUtils.h"

using namespace Litl;

// Text output of containers

struct Opaque { // Streams in a recognizable manner
  int v;
  bool operator==(const Opaque& o) const {
    return v == o.v;
  }
};
std::ostream& operator<<(std::ostream& os, const Opaque& o) {
  return os << '<' << o.v << '>';
}

template <typename T>
T element() {
  return T(mon().rng.range(std::is_signed<T>::value ? -1000 : 0, 1000));
}
template <>
double element<double>() {
  return (mon().rng.unit() - 0.5) * std::pow(10., mon().rng.range(-8, 8));
}
template <>
float element<float>() {
  return float(element<double>());
}
template <>
char element<char>() {
  return mon().rng.range('!', '~');
}
template <>
unsigned char element<unsigned char>() {
  return mon().rng.range('!', '~');
}
template <>
std::complex<double> element<std::complex<double>>() {
  return {element<double>(), element<double>()};
}
template <>
Opaque element<Opaque>() {
  return {int(mon().rng.range(-99, 99))};
}
template <>
std::string element<std::string>() {
  auto& r = mon().rng;
  const auto plain = std::string(r.range(0, 3), 'a') + cat(r.range(0, 99));
  if (not r.chance(4)) {
    return plain;
  }
  static const std::vector<std::string> others {
      "", " ", "\n", "a\nb\n\nc", "\t", "  leading and trailing  ", "%s %d %n", "\\n", "[1, 2]", "a, b", ": ", "{}", "\"'", "\xC3\xA9t\xC3\xA9", "\r\n", "-1"};
  switch (r.range(0, 3)) {
    case 0:
      return r.pick(others);
    case 1:
      return plain + r.pick(others) + plain;
    case 2:
      return std::string(vp::sizeBiased(r, 1100), char(r.range('A', 'z'))) + plain;
    default:
      return r.pick(others) + std::string(r.range(1, 40), ' ') + r.pick(others);
  }
}

/// Elements to be written, and not computed with
template <typename T, bool = std::numeric_limits<T>::is_specialized>
struct Extreme {
  static T get() {
    using L = std::numeric_limits<T>;
    switch (mon().rng.range(0, 5)) {
      case 0:
        return L::max();
      case 1:
        return L::lowest();
      case 2:
        return T(0);
      case 3:
        return L::has_infinity ? -L::infinity() : T(L::max() / 3);
      case 4:
        return L::has_quiet_NaN ? L::quiet_NaN() : T(L::lowest() / 7);
      default:
        return L::min();
    }
  }
};
template <typename T>
struct Extreme<T, false> {
  static T get() {
    return element<T>();
  }
};
template <typename T>
T written() {
  return sizeof(T) > 1 && mon().rng.chance(10) ? Extreme<T>::get() : element<T>();
}

struct Settings {
  std::function<void(std::ostream&)> apply;
  const char* name;
};

const std::vector<Settings>& settings() {
  static const std::vector<Settings> all {
      {[](std::ostream&) {}, "default"},
      {[](std::ostream& os) { os << std::setprecision(12); }, "precision 12"},
      {[](std::ostream& os) { os << std::fixed << std::setprecision(2); }, "fixed 2"},
      {[](std::ostream& os) { os << std::scientific; }, "scientific"},
      {[](std::ostream& os) { os << std::hex << std::showbase; }, "hex"},
      {[](std::ostream& os) { os << std::showpos; }, "showpos"}};
  return all;
}

template <typename T>
std::string expectedText(const std::vector<T>& values, const Settings& s) {
  std::ostringstream os;
  s.apply(os);
  os << "[";
  const std::size_t n = values.size();
  if (n <= 7) {
    for (std::size_t i = 0; i < n; ++i) {
      os << (i ? ", " : "") << values[i];
    }
  } else {
    os << values[0] << ", " << values[1] << ", " << values[2] << " ... " << values[n - 3] << ", " << values[n - 2] << ", " << values[n - 1];
  }
  os << "]";
  return os.str();
}

template <typename TContainer, typename T>
void streamed(const TContainer& c, const std::vector<T>& values, const char* holder) {
  auto& m = mon();
  const auto& s = settings()[m.rng.chance(2) ? 0 : m.rng.range(0, 5)];
  const auto expected = expectedText(values, s);
  m.begin(cat(holder, " of ", values.size(), " with ", s.name, ": ", expected), values.size() > 0);
  std::ostringstream os;
  s.apply(os);
  const auto precision = os.precision();
  const auto flags = os.flags();
  const bool chained = m.rng.chance(3);
  std::ostream& out = os << c;
  m.check(&out == static_cast<std::ostream*>(&os), "returned-stream");
  if (chained) {
    out << c;
  }
  m.check(os.str() == (chained ? expected + expected : expected), "text", [&] { return cat("got ", os.str()); });
  m.check(os.precision() == precision && os.flags() == flags && os.good(), "stream-state");
  m.count("streamed");
  m.count(values.size() > 7 ? "truncated" : "entire");
}

template <typename T>
void vectorTexts(const std::vector<T>& values) {
  if (values.size() < 100 || sizeof(T) > 2) { // The dimension is given as a T
    streamed(vec<-1>(values), values, "vector");
  }
  switch (values.size()) {
    case 1:
      return streamed(vec<1>(values), values, "vector 1");
    case 3:
      return streamed(vec<3>(values), values, "vector 3");
    case 7:
      return streamed(vec<7>(values), values, "vector 7");
    case 8:
      return streamed(vec<8>(values), values, "vector 8");
    case 9:
      return streamed(vec<9>(values), values, "vector 9");
  }
}
void vectorTexts(const std::vector<std::complex<double>>&) {}

template <typename T>
void texts() {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 60 * m.scale; ++k) {
    const std::size_t n = k < 18 ? k : k % 6 == 0 ? vp::sizeLarge(r, k % 18 == 0 ? 140000 : 3000) : r.chance(4) ? r.range(6, 9) : r.range(0, 60);
    std::vector<T> values(n);
    for (auto& v : values) {
      v = written<T>();
    }
    if (n > 0) {
      Sequence<T, StdHolder<std::vector<T>>> seq(n, values.data());
      streamed(seq, values, "vector sequence");
      const Raster<T, 1> line({Index(n)}, values.data());
      streamed(line, values, "1D raster");
      PtrRaster<T, 1> view({Index(n)}, values.data());
      streamed(view, values, "1D view");
      vectorTexts(values);
      // Multi-dimensional: in the order of the memory
      for (Index w = 2; w * w <= Index(n) && (n < 1000 || w < 8); ++w) {
        if (n % w == 0) {
          streamed(Raster<T, 2>({w, Index(n) / w}, values.data()), values, "2D raster");
          streamed(PtrRaster<const T, -1>(Position<-1> {w, 1, Index(n) / w}, values.data()), values, "nD view");
        }
      }
    } else {
      streamed(Sequence<T>(0), values, "empty sequence");
    }
  }
}

template <typename T>
void alignedTexts() {
  auto& r = mon().rng;
  for (int k = 0; k < 40 * mon().scale; ++k) {
    const std::size_t n = k < 10 ? k + 1 : k % 8 == 0 ? vp::sizeLarge(r, 140000) : r.range(1, 30);
    std::vector<T> values(n);
    for (auto& v : values) {
      v = written<T>();
    }
    streamed(AlignedRaster<T, 1>({Index(n)}, values.data()), values, "1D aligned raster");
  }
}

SCENARIO(text_int) { texts<int>(); }
SCENARIO(text_real) { texts<double>(), texts<float>(); }
SCENARIO(text_bytes) { texts<char>(), texts<unsigned char>(); }
SCENARIO(text_shorts) { texts<unsigned short>(), texts<long>(); }
SCENARIO(text_complex) { texts<std::complex<double>>(); }
SCENARIO(text_opaque) {
  auto& r = mon().rng;
  for (int k = 0; k < 100 * mon().scale; ++k) {
    const std::size_t n = k < 16 ? k + 1 : r.range(1, 40);
    std::vector<Opaque> values(n);
    for (auto& v : values) {
      v = element<Opaque>();
    }
    const PtrRaster<const Opaque, 1> view({Index(n)}, values.data());
    streamed(view, values, "opaque view");
  }
}
SCENARIO(text_aligned) { alignedTexts<int>(), alignedTexts<double>(), alignedTexts<char>(); }

// Serialization

SCENARIO(serialization) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 200 * m.scale; ++k) {
    const int a = element<int>();
    const double b = element<double>();
    const std::string c = element<std::string>();
    const Opaque d = element<Opaque>();
    const char e = element<char>();
    const auto test = [&](const char* name, auto&& f, const std::string& expected) {
      m.begin(cat("serialize ", name, ": ", expected), true);
      std::ostringstream os;
      f(os);
      m.check(os.str() == expected, "serialized", [&] { return cat("got ", os.str()); });
      m.count("serialized");
    };
    const auto str = [](const auto& v) {
      std::ostringstream os;
      os << v;
      return os.str();
    };
    test("one", [&](std::ostream& os) { serialize(os, a); }, str(a));
    test("two", [&](std::ostream& os) { serialize(os, c, b); }, c + ", " + str(b));
    test("three", [&](std::ostream& os) { serialize(os, d, a, "text"); }, str(d) + ", " + str(a) + ", text");
    test("five", [&](std::ostream& os) { serialize(os, e, c, std::string(c), b, d); }, str(e) + ", " + c + ", " + c + ", " + str(b) + ", " + str(d));
    test("nine", [&](std::ostream& os) { serialize(os, 1, 2, 3, 4, 5, 6, 7, a, 9); }, cat("1, 2, 3, 4, 5, 6, 7, ", a, ", 9"));
    const Sequence<int> s {1, 2, a};
    test("container", [&](std::ostream& os) { serialize(os, s, a); }, cat("[1, 2, ", a, "], ", a));
  }
}

// Tuples

/// Moves and copies are counted
struct Spy {
  int v;
  static int copies, moves;
  Spy(int value) : v(value) {}
  Spy(const Spy& o) : v(o.v) {
    ++copies;
  }
  Spy(Spy&& o) : v(o.v) {
    o.v = -1;
    ++moves;
  }
  Spy& operator=(const Spy&) = default;
};
int Spy::copies = 0;
int Spy::moves = 0;

struct Log {
  std::vector<std::string> lines;
  template <typename T>
  std::string text(const T& v) {
    std::ostringstream os;
    os << v;
    return os.str();
  }
};

struct Aggregate {
  int a;
  std::string b;
  double c;
  char d;
};

struct Texts {
  std::string a, b, c, d;
};

template <typename TSeq>
void seqCase(TSeq seq, std::vector<std::string> expected, const char* name) {
  auto& m = mon();
  m.begin(cat(name, ": ", expected), expected.size() > 0);
  const auto check = [&](const std::vector<std::string>& lines, const char* key) {
    m.check(lines == expected, key, [&] { return cat("got ", lines); });
    m.count("visits", lines.size());
  };
  const auto str = [](const auto& v) {
    std::ostringstream os;
    os << v;
    return os.str();
  };
  {
    std::vector<std::string> lines;
    seqForeach(seq, [&](const auto& e) { lines.push_back(str(e)); });
    check(lines, "foreach");
  }
  {
    std::vector<std::string> lines;
    const auto& constant = seq;
    seqForeach(constant, [&](const auto& e) { lines.push_back(str(e)); });
    check(lines, "foreach-const");
  }
  {
    std::vector<std::string> lines;
    seqForeach(TSeq(seq), [&](const auto& e) { lines.push_back(str(e)); });
    check(lines, "foreach-temporary");
  }
  { // A named function object, whose return value is ignored
    struct Visitor {
      std::vector<std::string>* lines;
      int operator()(int e) {
        lines->push_back(std::to_string(e));
        return 1;
      }
      int operator()(const std::string& e) {
        lines->push_back(e);
        return 2;
      }
      Opaque operator()(double e) {
        std::ostringstream os;
        os << e;
        lines->push_back(os.str());
        return {3};
      }
      void operator()(char e) {
        lines->push_back(std::string(1, e));
      }
    };
    std::vector<std::string> lines;
    Visitor visitor {&lines};
    seqForeach(seq, visitor);
    check(lines, "foreach-object");
  }
}

SCENARIO(visits) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 100 * m.scale; ++k) {
    const int a = element<int>(), b = element<int>();
    const double c = r.range(-100, 100) / 4.;
    const std::string d = element<std::string>();
    const char e = element<char>();
    const auto s = [](const auto& v) {
      std::ostringstream os;
      os << v;
      return os.str();
    };
    seqCase(std::tuple<> {}, {}, "empty tuple");
    seqCase(std::make_tuple(a), {s(a)}, "1-tuple");
    seqCase(std::make_tuple(d, a), {d, s(a)}, "2-tuple");
    seqCase(std::make_tuple(c, d, a), {s(c), d, s(a)}, "3-tuple");
    seqCase(std::make_tuple(e, a, b, c, d, d), {s(e), s(a), s(b), s(c), d, d}, "6-tuple");
    seqCase(std::array<int, 1> {a}, {s(a)}, "1-array");
    seqCase(std::array<int, 4> {a, b, b, a}, {s(a), s(b), s(b), s(a)}, "4-array");
    seqCase(std::array<std::string, 2> {d, s(a)}, {d, s(a)}, "text array");
    std::vector<int> ints(k % 40 == 7 ? vp::sizeLarge(r, 3000) : r.range(0, 12));
    std::vector<std::string> texts;
    for (auto& i : ints) {
      i = element<int>();
      texts.push_back(s(i));
    }
    seqCase(ints, texts, "vector");
    seqCase(std::list<int>(ints.begin(), ints.end()), texts, "list");
    seqCase(std::deque<int>(ints.begin(), ints.end()), texts, "deque");
    if (not ints.empty()) {
      seqCase(Sequence<int>(ints.size(), ints.data()), texts, "sequence");
      seqCase(Raster<int>({Index(ints.size()), 1}, ints.data()), texts, "raster");
      seqCase(vec<-1>(ints), texts, "position");
    }
    // In-place modification
    auto t = std::make_tuple(a, c, b);
    m.begin(cat("in place ", a, " ", c, " ", b), true);
    int calls = 0;
    seqForeach(t, [&](auto& v) {
      v += 1 + calls++;
    });
    m.check(t == std::make_tuple(a + 1, c + 2, b + 3), "modified-tuple");
    auto modified = ints;
    calls = 0;
    seqForeach(modified, [&](auto& v) { v = v * 2 + calls++; });
    bool same = calls == int(ints.size());
    for (std::size_t i = 0; i < ints.size(); ++i) {
      same = same && modified[i] == ints[i] * 2 + int(i);
    }
    m.check(same, "modified-vector");
    std::array<int, 3> array {a, b, a};
    seqForeach(array, [&](auto& v) { v -= 5; });
    m.check(array == std::array<int, 3> {a - 5, b - 5, a - 5}, "modified-array");
  }
}

SCENARIO(tuples) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 200 * m.scale; ++k) {
    const int a = element<int>();
    const std::string b = element<std::string>();
    const double c = r.range(-100, 100) / 4.;
    const char d = element<char>();
    const auto t = std::make_tuple(a, b, c, d);
    m.begin(cat("tuple ", a, " ", b, " ", c, " ", d), true);
    // As
    const auto out = tupleAs<Aggregate>(t);
    m.check(out.a == a && out.b == b && out.c == c && out.d == d, "as");
    const auto temporary = tupleAs<Aggregate>(std::make_tuple(a, b, c, d));
    m.check(temporary.a == a && temporary.b == b && temporary.c == c && temporary.d == d, "as-temporary");
    const auto ints = tupleAs<std::vector<int>>(std::make_tuple(a, 2, 3, a));
    m.check(ints == std::vector<int> {a, 2, 3, a}, "as-vector", [&] { return cat(ints); });
    const auto array = tupleAs<std::array<int, 3>>(std::make_tuple(1, a, 3));
    m.check(array == std::array<int, 3> {1, a, 3}, "as-array");
    const auto again = tupleAs<std::tuple<int, std::string, double, char>>(t);
    m.check(again == t, "as-tuple");
    const auto position = tupleAs<Position<3>>(std::make_tuple(Index(a), Index(5), Index(-a)));
    m.check(position == Position<3>({a, 5, -a}), "as-position");
    m.check(std::get<1>(t) == b, "as-input");
    // Apply
    const auto text = tupleApply(t, [](int i, const std::string& s, double x, char e) { return cat(i, "|", s, "|", x, "|", e); });
    m.check(text == cat(a, "|", b, "|", c, "|", d), "apply", [&] { return text; });
    m.check(tupleApply(std::make_tuple(a), [](int i) { return -i; }) == -a, "apply-1");
    m.check(tupleApply(std::tuple<> {}, [&] { return a; }) == a, "apply-0");
    m.check(tupleApply(std::array<int, 3> {a, 7, 1}, [](int i, int j, int l) { return i * 100 + j * 10 + l; }) == a * 100 + 71, "apply-array");
    auto mutableTuple = t;
    int& ref = tupleApply(mutableTuple, [](int& i, std::string& s, double&, char&) -> int& {
      s += "!";
      ++i;
      return i;
    });
    m.check(&ref == &std::get<0>(mutableTuple) && ref == a + 1 && std::get<1>(mutableTuple) == b + "!", "apply-references");
    int calls = 0;
    tupleApply(t, [&](const auto&...) { ++calls; });
    m.check(calls == 1, "apply-once");
    // Transform
    int order = 0;
    const auto texts = seqTransform<Texts>(t, [&](const auto& e) { return cat(order++, ":", e); });
    m.check(texts.a == cat("0:", a) && texts.b == cat("1:", b) && texts.c == cat("2:", c) && texts.d == cat("3:", d), "transform", [&] {
      return cat(texts.a, " ", texts.b, " ", texts.c, " ", texts.d);
    });
    m.check(order == 4, "transform-once");
    const auto doubled = seqTransform<std::array<int, 3>>(std::array<int, 3> {a, 2, 3}, [](int i) { return 2 * i; });
    m.check(doubled == std::array<int, 3> {2 * a, 4, 6}, "transform-array");
    const auto toVector = seqTransform<std::vector<double>>(std::make_tuple(a, c, 3.f), [](auto e) { return e / 2.; });
    m.check(toVector == std::vector<double> {a / 2., c / 2., 1.5}, "transform-tuple-to-vector");
    m.count("tuples");
  }
}

SCENARIO(transforms) { // Of containers
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 200 * m.scale; ++k) {
    const std::size_t n = k % 40 == 7 ? vp::sizeLarge(r, 70000) : r.chance(5) ? r.range(0, 2) : r.range(0, 30);
    std::vector<int> in(n);
    for (auto& v : in) {
      v = element<int>();
    }
    m.begin(cat("transform ", in), n > 0);
    const auto verify = [&](const auto& out, const std::vector<int>& log, const char* key) {
      m.check(log == in, "transform-order", [&] { return cat(key, " called on ", log); });
      bool same = out.size() == n;
      std::size_t i = 0;
      for (const auto& v : out) {
        same = same && i < n && v == in[i] * 0.5;
        ++i;
      }
      m.check(same, "transform-result", [&] { return key; });
      m.count("transformed elements", n);
    };
    const auto run = [&](auto&& seq, auto tag, const char* key) {
      std::vector<int> log;
      using TReturn = typename decltype(tag)::type;
      const auto out = seqTransform<TReturn>(seq, [&](int v) {
        log.push_back(v);
        return v * 0.5;
      });
      verify(out, log, key);
    };
    struct AsVector {
      using type = std::vector<double>;
    };
    struct AsList {
      using type = std::list<double>;
    };
    struct AsSequence {
      using type = Sequence<double>;
    };
    run(in, AsVector {}, "vector to vector");
    run(std::list<int>(in.begin(), in.end()), AsVector {}, "list to vector");
    run(in, AsList {}, "vector to list");
    if (n > 0) {
      run(in, AsSequence {}, "vector to sequence");
      run(Sequence<int>(n, in.data()), AsVector {}, "sequence to vector");
      run(Raster<int>({1, Index(n)}, in.data()), AsSequence {}, "raster to sequence");
    }
  }
}

SCENARIO(iterators) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 200 * m.scale; ++k) {
    const std::size_t n = k % 40 == 7 ? vp::sizeLarge(r, 70000) : r.range(1, 20);
    std::vector<int> a(n);
    std::list<double> b;
    Sequence<long> c(n);
    for (std::size_t i = 0; i < n; ++i) {
      a[i] = element<int>();
      b.push_back(element<int>() / 4.);
      c[i] = element<long>();
    }
    m.begin(cat("iterators ", a), true);
    auto its = std::make_tuple(a.begin(), b.cbegin(), c.begin());
    auto bit = b.begin();
    bool same = true;
    int calls = 0;
    for (std::size_t i = 0; i < n; ++i, ++bit) {
      const double out = iteratorTupleApply(its, [&](int& x, double y, long z) {
        ++calls;
        same = same && &x == &a[i] && y == *bit && z == c[i];
        x += 1;
        return x + y * z;
      });
      same = same && out == a[i] + *bit * c[i];
      same = same && std::get<0>(its) == a.begin() + i + 1 && std::get<1>(its) == std::next(bit) && std::get<2>(its) == c.begin() + i + 1;
    }
    m.check(same, "iterator-apply");
    m.check(calls == int(n), "iterator-apply-once");
    auto one = std::make_tuple(a.cbegin());
    unsigned long sum = 0;
    for (std::size_t i = 0; i < n; ++i) {
      iteratorTupleApply(one, [&](int x) { sum = sum * 3 + x; });
    }
    unsigned long expected = 0;
    for (int x : a) {
      expected = expected * 3 + x;
    }
    m.check(sum == expected && std::get<0>(one) == a.cend(), "iterator-apply-1");
    m.count("iterator steps", 2 * n);
  }
}

SCENARIO(traits) {
  auto& m = mon();
  m.begin("traits", true);
  m.check(isTuple<std::tuple<int>>() && isTuple<const std::tuple<int, char>&>() && isTuple<std::tuple<>&&>(), "tuple");
  m.check(isTuple<std::array<int, 2>>() && isTuple<const std::array<int, 2>&>(), "array-tuple");
  m.check(not isTuple<std::vector<int>>() && not isTuple<int>() && not isTuple<Raster<int>>() && not isTuple<const std::list<int>&>(), "not-tuple");
  m.check(isIterable<std::vector<int>>::value && isIterable<std::list<int>>::value && isIterable<Raster<int>>::value && isIterable<Position<2>>::value, "iterable");
  m.check(not isIterable<int>::value && not isIterable<Opaque>::value && not isIterable<std::complex<float>>::value, "not-iterable");
  m.count("traits");
}

// Errors

template <typename F>
std::string message(F&& f) {
  try {
    f();
  } catch (const Exception& e) {
    const std::exception& base = e;
    mon().check(std::string(base.what()) == e.what(), "what-base");
    return e.what();
  } catch (const std::exception& e) {
    return cat("std ", e.what());
  }
  return "nothing";
}

bool within(const std::string& text, const std::vector<std::string>& parts) {
  std::size_t at = 0;
  for (const auto& p : parts) {
    const auto found = text.find(p, at);
    if (found == std::string::npos) {
      return false;
    }
    at = found + p.size();
  }
  return true;
}

SCENARIO(errors) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 300 * m.scale; ++k) {
    const std::string prefix = element<std::string>(), text = element<std::string>() + " message";
    const bool prefixed = r.chance(2);
    auto expected = (prefixed ? prefix : std::string("Litl error")) + ": " + text;
    Exception e = prefixed ? Exception(prefix, text) : Exception(text);
    m.begin(cat("error ", expected), true);
    m.check(e.what() == expected, "message", [&] { return e.what(); });
    const int lines = r.range(0, 6);
    Exception* last = &e;
    for (int i = 0; i < lines; ++i) {
      const auto line = cat("line ", element<std::string>());
      const int indent = r.chance(3) ? 0 : r.range(0, 5);
      last = indent == 0 && r.chance(2) ? &last->append(line) : &last->append(line, indent);
      expected += "\n" + std::string(2 * indent, ' ') + line;
      m.begin(cat("error ", expected), true);
      m.check(last == &e, "append-self");
      m.check(e.what() == expected, "appended", [&] { return e.what(); });
      m.count("appended lines");
    }
    const Exception copy = e;
    e.append("more");
    m.check(copy.what() == expected, "copy", [&] { return copy.what(); });
    m.check(e.what() == expected + "\nmore", "append-after-copy");
    m.check(message([&] { throw copy; }) == expected, "thrown");
    m.check(message([&] { throw Exception(text).append("a", 1).append("b"); }) == "Litl error: " + text + "\n  a\nb", "thrown-appended");

    const long lo = r.range(-1000, 1000), hi = lo + r.range(0, 1000), value = r.chance(3) ? r.range(lo, hi) : r.range(-3000, 3000);
    const auto bounds = cat(": ", value, " not in [", lo, ", ", hi, "]");
    const auto name = element<std::string>();
    m.begin(cat("bounds ", name, bounds), true);
    m.check(within(OutOfBoundsError(name, value, {lo, hi}).what(), {"Out of bounds error: ", name, bounds}), "bounds-message", [&] { return OutOfBoundsError(name, value, {lo, hi}).what(); });
    const auto thrown = message([&] { OutOfBoundsError::mayThrow(name, value, {lo, hi}); });
    const bool inside = lo <= value && value <= hi;
    m.check(inside ? thrown == "nothing" : within(thrown, {"Out of bounds error: ", name, bounds}), "bounds-thrown", [&] { return thrown; });
    for (long v : {lo, hi}) {
      m.check(message([&] { OutOfBoundsError::mayThrow(name, v, {lo, hi}); }) == "nothing", "bounds-included");
    }
    for (long v : {lo - 1, hi + 1}) {
      m.check(message([&] { OutOfBoundsError::mayThrow(name, v, {lo, hi}); }) != "nothing", "bounds-excluded");
    }
    const double x = r.unit();
    m.check(message([&] { OutOfBoundsError::mayThrow(name, x, {0., 1.}); }) == "nothing" && message([&] { OutOfBoundsError::mayThrow(name, x + 1.5, {0., 1.}); }) != "nothing", "bounds-real");

    const std::size_t in = r.range(0, 50), ref = r.chance(3) ? in : r.range(0, 50);
    m.begin(cat("size ", in, " for ", ref), true);
    const auto size = message([&] { SizeError::mayThrow(in, ref); });
    m.check(in == ref ? size == "nothing" : within(size, {"Size error: ", cat("xpected ", ref), cat("got ", in)}), "size", [&] { return size; });
    m.check(message([&] { NullPtrError("p").mayThrow(&in, text); }) == "nothing", "not-null");
    m.check(within(message([&] { NullPtrError("p").mayThrow(nullptr, text); }), {"Null pointer error: ", text}), "null");
    m.check(within(message([&] { isAligned(static_cast<int*>(nullptr), 8); }), {"Null pointer error: "}), "null-aligned");
    m.check(within(message([&] { alignment(static_cast<int*>(nullptr)); }), {"Null pointer error: "}), "null-alignment");
    m.count("errors");
  }
}

SCENARIO(thrown_errors) { // By containers
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 200 * m.scale; ++k) {
    const Index s = r.range(1, 20);
    Sequence<int> seq(s);
    const Index i = r.chance(2) ? s + r.range(0, 100) : -s - 1 - r.range(0, 100);
    m.begin(cat("index ", i, " of ", s), true);
    const auto expected = cat(": ", i, " not in [", -s, ", ", s - 1, "]");
    auto text = message([&] { seq.at(i); });
    m.check(within(text, {"Out of bounds error: ", "ndex", cat(i), expected}) || within(text, {"Out of bounds error: ", "ndex", expected}), "at", [&] { return text; });
    text = message([&] { static_cast<const Sequence<int>&>(seq).at(i); });
    m.check(within(text, {"Out of bounds error: ", "ndex", expected}), "at-const", [&] { return text; });
    m.check(message([&] { seq.at(s - 1), seq.at(-s), seq.at(0); }) == "nothing", "at-inside");

    const Position<3> shape {r.range(1, 9), r.range(1, 9), r.range(1, 9)};
    Raster<short, 3> raster(shape);
    Position<3> p;
    for (int d = 0; d < 3; ++d) {
      p[d] = r.range(-shape[d], shape[d] - 1);
    }
    const int axis = r.range(0, 2);
    p[axis] = r.chance(2) ? shape[axis] + r.range(0, 50) : -shape[axis] - 1 - r.range(0, 50);
    m.begin(cat("position ", list(toVec(p)), " in ", list(toVec(shape))), true);
    text = message([&] { raster.at(p); });
    m.check(within(text, {"Out of bounds error: ", cat("[", axis, "]"), cat(": ", p[axis], " not in [", -shape[axis], ", ", shape[axis] - 1, "]")}), "raster-at", [&] { return text; });

    const std::size_t n = shapeSize(shape), given = n + (r.chance(2) ? r.range(1, 5) : -r.range(1, n));
    m.begin(cat("values ", given, " for ", n), true);
    std::vector<short> values(given);
    text = message([&] { Raster<short, 3> wrong(shape, std::move(values)); });
    m.check(within(text, {"Size error: ", cat("xpected ", n), cat("got ", given)}), "raster-size", [&] { return text; });
    std::vector<short> iterable(given);
    text = message([&] { Raster<short, 3> wrong(shape, iterable); });
    m.check(within(text, {"Size error: ", cat(n), cat(given)}) || within(text, {"Size error: ", cat(given), cat(n)}), "raster-iterable-size", [&] { return text; });
    Raster<short, -1> dynamic(Position<-1> {shape[0], shape[1]});
    text = message([&] { dynamic.at(Position<-1> {0, 0, 0}); });
    m.check(within(text, {"Size error: ", "xpected 2", "got 3"}), "raster-dimension", [&] { return text; });

    alignas(64) static char buffer[128];
    const int offset = r.range(1, 31);
    m.begin(cat("alignment ", offset), true);
    text = message([&] { AlignedRaster<char, 1>({4}, buffer + offset, 32); });
    std::ostringstream address;
    address << static_cast<const void*>(buffer + offset);
    m.check(within(text, {"Alignment error: ", address.str(), "32"}), "alignment", [&] { return text; });
    m.count("thrown errors", 6);
  }
}

VP_MAIN
