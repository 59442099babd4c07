// BUILD: name=run san=asan sources=LitlRun/src/lib/IterationBenchmark.cpp
// RULE: A case is a side, input data and a random sequence of iteration strategies. Before each run the output is filled with garbage;
//   after it each pixel is compared with the sum of the inputs at the same position, the inputs with their copies, and the returned
//   duration with that of a virtual clock over the run. Non-trivial: more than one pixel. Distinct: by side, strategies and data.
#include "monitor.hpp"

#include <chrono>

#include "LitlRun/IterationBenchmark.h"
#include "litl.hpp"

using namespace Litl;

static thread_local long steadyNow = 1000000000;
static thread_local long tick = 0;
static thread_local std::vector<long> reads;
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  steadyNow += tick;
  reads.push_back(steadyNow);
  return time_point(duration(steadyNow));
}
} // namespace _V2
} // namespace chrono
} // namespace std

struct Bench : IterationBenchmark {
  using IterationBenchmark::IterationBenchmark;
  using IterationBenchmark::m_a;
  using IterationBenchmark::m_b;
  using IterationBenchmark::m_c;
  using IterationBenchmark::m_chrono;
};

using Strategy = IterationBenchmark::Duration (IterationBenchmark::*)();
struct Named {
  const char* name;
  Strategy run;
};
static const Named strategies[] = {
    {"loopOverXyz", &IterationBenchmark::loopOverXyz},
    {"loopOverZyx", &IterationBenchmark::loopOverZyx},
    {"iterateOverPositions", &IterationBenchmark::iterateOverPositions},
    {"iterateOverPositionsOptimized", &IterationBenchmark::iterateOverPositionsOptimized},
    {"loopOverIndices", &IterationBenchmark::loopOverIndices},
    {"iterateOverValues", &IterationBenchmark::iterateOverValues},
    {"callOperator", &IterationBenchmark::callOperator},
    {"callGenerate", &IterationBenchmark::callGenerate}};

void runs(const char* name, Index lo, Index hi, int repeats) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < repeats * m.scale; ++k) {
    const Index side = r.range(lo, hi);
    tick = 1000;
    Bench bench(side);
    const std::size_t size = side * side * side;
    const bool generated = r.chance(3); // By the benchmark
    if (not generated) {
      for (std::size_t i = 0; i < size; ++i) {
        bench.m_a.data()[i] = r.range(-60, 60);
        bench.m_b.data()[i] = r.range(-60, 60);
      }
    }
    std::string text = cat(name, " side ", side, generated ? " generated" : "", " first ", int(bench.m_a.data()[0]), " ", int(bench.m_b.data()[0]), ":");
    m.begin(text, size > 1);
    m.check(bench.m_a.size() == size && bench.m_b.size() == size && bench.m_c.size() == size, "size");
    const std::vector<char> a(bench.m_a.data(), bench.m_a.data() + size);
    const std::vector<char> b(bench.m_b.data(), bench.m_b.data() + size);
    std::vector<long> durations;
    for (int i = r.range(3, 12); i > 0; --i) {
      const auto& s = strategies[r.range(0, 7)];
      text += cat(" ", s.name);
      m.begin(text, size > 1);
      for (std::size_t j = 0; j < size; ++j) {
        bench.m_c.data()[j] = char(r.next());
      }
      tick = r.range(0, 3000000000);
      steadyNow += r.range(0, 10000000000); // Out of the run
      reads.clear();
      const auto out = (bench.*s.run)();
      m.check(reads.size() > 1 && out == std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::nanoseconds(reads.back() - reads.front())), "duration", [&] {
        return cat(s.name, " returned ", out.count(), " ms after ", reads.size(), " clock reads every ", tick, " ns");
      });
      bool same = bench.m_c.shape() == Position<3>({side, side, side}) && bench.m_c.size() == size;
      m.check(same, "shape", [&] { return s.name; });
      if (same) {
        std::size_t j = 0;
        for (Index z = 0; z < side; ++z) {
          for (Index y = 0; y < side; ++y) {
            for (Index x = 0; x < side; ++x, ++j) {
              if (bench.m_c.data()[j] != char(a[j] + b[j])) {
                m.check(false, "sum", [&] { return cat(s.name, " at ", x, " ", y, " ", z, ": ", int(bench.m_c.data()[j]), " expected ", a[j] + b[j]); });
              }
            }
          }
        }
        m.check(true, "sum");
        m.count("pixels compared", size);
      }
      m.check(bench.m_a.size() == size && std::equal(a.begin(), a.end(), bench.m_a.data()), "first-input", [&] { return s.name; });
      m.check(bench.m_b.size() == size && std::equal(b.begin(), b.end(), bench.m_b.data()), "second-input", [&] { return s.name; });
      m.count(s.name);
    }
  }
}

SCENARIO(tiny) { runs("tiny", 1, 4, 60); }
SCENARIO(small) { runs("small", 5, 18, 30); }
SCENARIO(medium) { runs("medium", 19, 40, 6); }

VP_MAIN
