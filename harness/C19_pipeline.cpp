// BUILD: name=run san=asan
// RULE: A case is a pipeline (chain, diamond, wide, layered, forest, mixed return types) and a random history of requests, queries,
//   resets and copies, with steps which are made to throw at some attempts, or read their prerequisites through the pipeline. Each
//   evaluation is logged by the steps themselves and the log is compared with a depth-first reference; clocks are virtual, and the
//   system one jumps backward. Non-trivial: at least one evaluation. Distinct: by pipeline and history.
#include "monitor.hpp"

#include <chrono>

#include "LitlRun/StepperPipeline.h"

using namespace Litl;

// Virtual clocks: time only passes when told so
static thread_local long steadyNow = 1000000000;
static thread_local long systemNow = 2000000000;
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(steadyNow));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(systemNow));
}
} // namespace _V2
} // namespace chrono
} // namespace std

constexpr int maxSteps = 12;

struct Failure {
  int id;
};

/// What the steps do and log
struct World {
  std::vector<int> log; ///< Evaluations which completed
  std::vector<int> attempts; ///< Evaluations which started
  long values[maxSteps] = {}; ///< Computed by the steps
  long generation = 0;
  int throwing[maxSteps] = {}; ///< Number of times each step will throw
  long cost[maxSteps] = {}; ///< Nanoseconds
  bool jumps = false; ///< The system clock is set during evaluations
  bool nested = false; ///< Steps get their prerequisites through the pipeline
  int depth = 0, maxDepth = 0;
};

template <int I, typename TPrerequisite, typename TReturn>
struct Step : PipelineStep<TPrerequisite, TReturn> {
  static constexpr int id = I;
};

/// Indices of the prerequisites
template <typename T>
struct Ids {
  static std::vector<int> list() {
    return {int(T::id)};
  }
};
template <>
struct Ids<void> {
  static std::vector<int> list() {
    return {};
  }
};
template <typename... Ts>
struct Ids<std::tuple<Ts...>> {
  static std::vector<int> list() {
    return {int(Ts::id)...};
  }
};

template <typename TReturn>
struct Answer {
  static TReturn of(long& value) {
    return TReturn(value);
  }
  static long read(TReturn v) {
    return long(v);
  }
};
template <>
struct Answer<const long&> {
  static const long& of(long& value) {
    return value;
  }
};
template <>
struct Answer<std::string> {
  static std::string of(long& value) {
    return std::to_string(value);
  }
};
template <>
struct Answer<void> {
  static void of(long&) {}
};

/// Fetch the prerequisites from a step
template <typename T>
struct Fetch {
  template <typename TPipeline>
  static void from(TPipeline& p) {
    p.template get<T>();
  }
};
template <>
struct Fetch<void> {
  template <typename TPipeline>
  static void from(TPipeline&) {}
};
template <typename... Ts>
struct Fetch<std::tuple<Ts...>> {
  template <typename TPipeline>
  static void from(TPipeline& p) {
    using mockUnpack = int[];
    (void)mockUnpack {0, (p.template get<Ts>(), void(), 0)...};
  }
};

template <typename... TSteps>
class Dag : public StepperPipeline<Dag<TSteps...>> {
public:
  explicit Dag(World& world) : m_world(&world) {}
  void restart() {
    this->reset();
  }
  void moveTo(World& world) {
    m_world = &world;
  }

protected:
  template <typename S>
  void doEvaluate() {
    auto& w = *m_world;
    w.attempts.push_back(int(S::id));
    w.maxDepth = std::max(w.maxDepth, ++w.depth);
    steadyNow += w.cost[int(S::id)] / 2;
    systemNow += w.jumps ? -5000000000 : w.cost[int(S::id)] / 2;
    struct Leave {
      World& w;
      ~Leave() {
        --w.depth;
      }
    } leave {w};
    if (w.throwing[int(S::id)] > 0) {
      --w.throwing[int(S::id)];
      throw Failure {int(S::id)};
    }
    if (w.nested) {
      Fetch<typename S::Prerequisite>::from(*this);
    }
    long value = int(S::id) + 1 + 100 * w.generation;
    for (int p : Ids<typename S::Prerequisite>::list()) {
      value = (value * 31 + w.values[p]) % 1000003;
    }
    w.values[int(S::id)] = value;
    steadyNow += w.cost[int(S::id)] - w.cost[int(S::id)] / 2;
    systemNow += w.jumps ? -3000000000 : w.cost[int(S::id)] - w.cost[int(S::id)] / 2;
    w.log.push_back(int(S::id));
  }

  template <typename S>
  typename S::Return doGet() {
    return Answer<typename S::Return>::of(m_world->values[int(S::id)]);
  }

private:
  World* m_world;
};

/// Run-time access to the steps of a pipeline
template <typename TDag>
struct Entry {
  std::vector<int> prerequisites;
  std::function<bool(TDag&, long)> getIs; ///< Get and compare with a value
  std::function<bool(const TDag&)> evaluated;
  std::function<double(const TDag&)> milliseconds;
};

template <typename TReturn>
struct Compare {
  template <typename S, typename TDag>
  static bool get(TDag& dag, long expected) {
    return dag.template get<S>() == TReturn(expected);
  }
};
template <>
struct Compare<std::string> {
  template <typename S, typename TDag>
  static bool get(TDag& dag, long expected) {
    return dag.template get<S>() == std::to_string(expected);
  }
};
template <>
struct Compare<const long&> {
  template <typename S, typename TDag>
  static bool get(TDag& dag, long expected) {
    const long& a = dag.template get<S>();
    const long& b = dag.template get<S>();
    return a == expected && &a == &b;
  }
};
template <>
struct Compare<void> {
  template <typename S, typename TDag>
  static bool get(TDag& dag, long) {
    dag.template get<S>();
    return true;
  }
};

template <typename S, typename TDag>
Entry<TDag> entryOf() {
  return {
      Ids<typename S::Prerequisite>::list(),
      [](TDag& dag, long expected) { return Compare<typename S::Return>::template get<S>(dag, expected); },
      [](const TDag& dag) { return dag.template evaluated<S>(); },
      [](const TDag& dag) { return dag.template milliseconds<S>(); }};
}

/// Reference pipeline
struct Model {
  std::vector<std::vector<int>> prerequisites;
  std::vector<bool> evaluated;
  std::vector<long> values;
  std::vector<double> ms;
  std::vector<int> log, attempts;
  bool get(int id, World& w, int* throwing) {
    for (int p : prerequisites[id]) {
      if (not get(p, w, throwing)) {
        return false;
      }
    }
    if (not evaluated[id]) {
      attempts.push_back(id);
      if (throwing[id] > 0) {
        --throwing[id];
        return false;
      }
      long value = id + 1 + 100 * w.generation;
      for (int p : prerequisites[id]) {
        value = (value * 31 + values[p]) % 1000003;
      }
      values[id] = value;
      evaluated[id] = true;
      ms[id] = w.cost[id] / 1e6;
      log.push_back(id);
    }
    return true;
  }
};

template <typename... TSteps>
void history(const char* name, Dag<TSteps...>*) {
  using TDag = Dag<TSteps...>;
  auto& m = mon();
  auto& r = m.rng;
  const std::vector<Entry<TDag>> entries {entryOf<TSteps, TDag>()...};
  const int n = entries.size();
  for (int k = 0; k < 150 * m.scale; ++k) {
    World w;
    Model model;
    for (const auto& e : entries) {
      model.prerequisites.push_back(e.prerequisites);
    }
    const auto clear = [&] {
      model.evaluated.assign(n, false);
      model.values.assign(n, 0);
      model.ms.assign(n, -1);
    };
    clear();
    w.nested = r.chance(3);
    w.jumps = r.chance(3);
    for (int i = 0; i < n; ++i) {
      w.cost[i] = r.chance(4) ? 0 : r.range(0, 1l << r.range(1, 34)) * 2;
      w.throwing[i] = r.chance(5) ? r.range(1, 3) : 0;
    }
    TDag dag(w);
    std::unique_ptr<TDag> previous;
    std::string text = cat(name, w.nested ? " nested" : "", w.jumps ? " jumps" : "", " throwing");
    for (int i = 0; i < n; ++i) {
      text += cat(" ", w.throwing[i]);
    }
    text += ":";
    const auto examine = [&](const char* key) {
      double total = 0;
      for (int i = 0; i < n; ++i) {
        const bool evaluated = entries[i].evaluated(dag);
        m.check(evaluated == model.evaluated[i], "evaluated", [&] { return cat(key, " step ", i, " reported ", evaluated); });
        const double ms = entries[i].milliseconds(dag);
        m.check(model.evaluated[i] ? ms >= 0 : ms == -1, "milliseconds-sign", [&] { return cat(key, " step ", i, " took ", ms); });
        if (model.evaluated[i]) {
          m.check(std::fabs(ms - model.ms[i]) <= 1e-9 * (1 + model.ms[i]), "milliseconds", [&] { return cat(key, " step ", i, " took ", ms, " expected ", model.ms[i]); });
          total += ms;
        }
      }
      const double sum = dag.milliseconds();
      m.check(std::fabs(sum - total) <= 1e-9 * (1 + total), "milliseconds-total", [&] { return cat(key, " total ", sum, " expected ", total); });
    };
    m.begin(text, false);
    examine("initially");
    for (int step = 0; step < 14; ++step) {
      const int action = r.range(0, 9);
      if (action == 0) {
        dag.restart();
        clear();
        ++w.generation;
        text += " reset";
        m.begin(text, model.log.size() > 0);
        examine("after reset");
        m.count("resets");
        continue;
      }
      if (action == 1) { // Steps which fail from now on
        const int id = r.range(0, n - 1);
        w.throwing[id] = r.range(1, 2);
        text += cat(" break", id);
        continue;
      }
      steadyNow += r.range(0, 1000000000); // Time spent out of the pipeline
      systemNow += r.range(0, 1000000000);
      const int id = r.range(0, n - 1);
      text += cat(" ", id);
      m.begin(text, true);
      int throwing[maxSteps];
      std::copy(w.throwing, w.throwing + maxSteps, throwing);
      w.log.clear();
      w.attempts.clear();
      model.log.clear();
      model.attempts.clear();
      const bool ok = model.get(id, w, throwing);
      bool same = false, threw = false;
      try {
        same = entries[id].getIs(dag, model.values[id]);
      } catch (const Failure& f) {
        threw = true;
        m.check(not ok && f.id == model.attempts.back(), "failing-step", [&] { return cat("step ", f.id, " threw"); });
      }
      m.check(threw == not ok, "exception", [&] { return cat(threw ? "thrown" : "not thrown"); });
      m.check(w.log == model.log && w.attempts == model.attempts, "evaluations", [&] {
        return cat("evaluated ", w.attempts, " expected ", model.attempts);
      });
      if (ok && not threw) {
        m.check(same, "value", [&] { return cat("step ", id, " expected ", model.values[id]); });
      }
      m.check(w.depth == 0 && w.maxDepth <= 1, "depth");
      m.count("evaluations", w.log.size());
      m.count("requests");
      m.count(threw ? "failed requests" : w.log.empty() ? "requests without evaluation" : "requests with evaluations");
      examine("after request");
    }
  }
}

template <int I, typename P>
using L = Step<I, P, long>;

// Chain
using C0 = L<0, void>;
using C1 = L<1, C0>;
using C2 = Step<2, C1, const long&>;
using C3 = Step<3, C2, std::string>;
using C4 = Step<4, C3, void>;
using C5 = L<5, C4>;
SCENARIO(chain) { history("chain", static_cast<Dag<C0, C1, C2, C3, C4, C5>*>(nullptr)); }

// Diamond
using D0 = L<0, void>;
using D1 = Step<1, D0, const long&>;
using D2 = L<2, D0>;
using D3 = L<3, std::tuple<D2, D1>>; // Not in the index order
using D4 = L<4, std::tuple<D3, D1, D0>>;
SCENARIO(diamond) { history("diamond", static_cast<Dag<D0, D1, D2, D3, D4>*>(nullptr)); }

// Wide
using W0 = L<0, void>;
using W1 = Step<1, void, std::string>;
using W2 = L<2, void>;
using W3 = Step<3, W1, void>;
using W4 = L<4, void>;
using W5 = L<5, std::tuple<W4, W2, W3, W0, W1>>;
using W6 = L<6, std::tuple<W5, W0>>;
SCENARIO(wide) { history("wide", static_cast<Dag<W0, W1, W2, W3, W4, W5, W6>*>(nullptr)); }

// Layers
using Y0 = L<0, void>;
using Y1 = L<1, void>;
using Y2 = L<2, void>;
using Y3 = Step<3, std::tuple<Y0, Y1, Y2>, const long&>;
using Y4 = L<4, std::tuple<Y2, Y1, Y0>>;
using Y5 = L<5, std::tuple<Y1, Y0>>;
using Y6 = L<6, std::tuple<Y5, Y4, Y3>>;
using Y7 = L<7, std::tuple<Y3, Y5>>;
using Y8 = L<8, std::tuple<Y4, Y6>>;
using Y9 = Step<9, std::tuple<Y8, Y7, Y6>, std::string>;
SCENARIO(layers) { history("layers", static_cast<Dag<Y0, Y1, Y2, Y3, Y4, Y5, Y6, Y7, Y8, Y9>*>(nullptr)); }

// Forest
using F0 = L<0, void>;
using F1 = L<1, F0>;
using F2 = L<2, void>;
using F3 = Step<3, F2, const long&>;
using F4 = L<4, F0>;
using F5 = Step<5, std::tuple<F2, F2, F0>, void>; // Twice the same
SCENARIO(forest) { history("forest", static_cast<Dag<F0, F1, F2, F3, F4, F5>*>(nullptr)); }

/// Two pipelines do not interfere, and a copy carries the state
SCENARIO(several) {
  using TDag = Dag<D0, D1, D2, D3, D4>;
  auto& m = mon();
  auto& r = m.rng;
  const std::vector<Entry<TDag>> entries {entryOf<D0, TDag>(), entryOf<D1, TDag>(), entryOf<D2, TDag>(), entryOf<D3, TDag>(), entryOf<D4, TDag>()};
  for (int k = 0; k < 200 * m.scale; ++k) {
    World wa, wb, wc;
    TDag a(wa), b(wb);
    const int i = r.range(0, 4), j = r.range(0, 4);
    m.begin(cat("several ", i, " ", j, " ", k));
    Model ma, mb;
    for (const auto& e : entries) {
      ma.prerequisites.push_back(e.prerequisites);
    }
    ma.evaluated.assign(5, false);
    ma.values.assign(5, 0);
    ma.ms.assign(5, -1);
    mb = ma;
    int none[maxSteps] = {};
    ma.get(i, wa, none);
    mb.get(j, wb, none);
    m.check(entries[i].getIs(a, ma.values[i]) && entries[j].getIs(b, mb.values[j]), "value");
    m.check(wa.log == ma.log && wb.log == mb.log, "evaluations");
    TDag copy(a);
    copy.moveTo(wc);
    std::copy(wa.values, wa.values + maxSteps, wc.values);
    auto mc = ma;
    mc.log.clear();
    mc.get(j, wc, none);
    m.check(entries[j].getIs(copy, mc.values[j]) && wc.log == mc.log, "copy", [&] { return cat("evaluated ", wc.log, " expected ", mc.log); });
    for (int s = 0; s < 5; ++s) {
      m.check(entries[s].evaluated(a) == ma.evaluated[s] && entries[s].evaluated(b) == mb.evaluated[s] && entries[s].evaluated(copy) == mc.evaluated[s], "evaluated");
    }
  }
}

VP_MAIN
