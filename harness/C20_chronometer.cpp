// BUILD: name=run san=asan
// RULE: A case is a time unit, an offset and a random history of starts, restarts, stops, resets and copies over two interleaved
//   chronometers, under a virtual steady clock (the system clock jumps in any direction). After each operation all the accessors are
//   compared with a reference accounting computed from the clock. Non-trivial: at least one increment. Distinct: by unit and history.
#include "monitor.hpp"

#include <chrono>

#include "LitlRun/Chronometer.h"

using namespace Litl;

static thread_local long steadyNow = 1000000000;
static thread_local long systemNow = 2000000000;
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(steadyNow));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(systemNow));
}
} // namespace _V2
} // namespace chrono
} // namespace std

template <typename U>
struct Account {
  bool running = false;
  long tic = 0;
  U elapsed {};
  std::vector<U> increments;
};

template <typename U>
void examine(const Chronometer<U>& c, const Account<U>& a, const char* when) {
  auto& m = mon();
  m.check(c.isRunning() == a.running, "running", [&] { return cat(when, ": ", c.isRunning()); });
  m.check(c.count() == a.increments.size(), "count", [&] { return cat(when, ": ", c.count(), " expected ", a.increments.size()); });
  m.check(c.elapsed() == a.elapsed, "elapsed", [&] { return cat(when, ": ", c.elapsed().count(), " expected ", a.elapsed.count()); });
  const auto& values = c.increments();
  bool same = values.size() == a.increments.size();
  for (std::size_t i = 0; same && i < values.size(); ++i) {
    same = values[i] == double(a.increments[i].count());
  }
  m.check(same, "increments", [&] { return cat(when, ": ", values); });
  if (a.increments.empty()) {
    return;
  }
  m.check(c.last() == a.increments.back(), "last", [&] { return cat(when, ": ", c.last().count(), " expected ", a.increments.back().count()); });
  long double sum = 0, lo = a.increments[0].count(), hi = lo;
  for (const auto& i : a.increments) {
    const long double e = i.count();
    sum += e;
    lo = std::min(lo, e);
    hi = std::max(hi, e);
  }
  const long double n = a.increments.size();
  const long double mean = sum / n;
  long double s2 = 0;
  for (const auto& i : a.increments) {
    s2 += (i.count() - mean) * (i.count() - mean);
  }
  const long double stdev = std::sqrt(s2 / n);
  const long double scale = std::max(std::fabs(lo), std::fabs(hi));
  m.check(std::fabs(c.mean() - mean) <= 1e-12L * scale, "mean", [&] { return cat(when, ": ", c.mean(), " expected ", double(mean)); });
  m.check(std::fabs(c.stdev() - stdev) <= 1e-12L * scale, "stdev", [&] { return cat(when, ": ", c.stdev(), " expected ", double(stdev)); });
  m.check(c.min() == double(lo), "min", [&] { return cat(when, ": ", c.min(), " expected ", double(lo)); });
  m.check(c.max() == double(hi), "max", [&] { return cat(when, ": ", c.max(), " expected ", double(hi)); });
  m.count("statistics compared");
}

template <typename U>
void histories(const char* name) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 250 * m.scale; ++k) {
    const auto offset = [&] {
      return U(typename U::rep(r.chance(3) ? 0 : r.range(-1000, 1000)));
    };
    steadyNow = r.range(1, 1l << 40);
    const auto initial = offset();
    Account<U> accounts[2];
    Chronometer<U> chronos[2] {Chronometer<U>(), Chronometer<U>(initial)};
    accounts[1].elapsed = initial;
    std::string text = cat(name, " offset ", initial.count(), ":");
    m.begin(text, false);
    examine(chronos[0], accounts[0], "initially");
    examine(chronos[1], accounts[1], "initially");
    const long grain = r.chance(2) ? std::chrono::nanoseconds(std::chrono::duration_cast<std::chrono::nanoseconds>(U(1))).count() : 1;
    int length = r.range(1, r.chance(10) ? 120 : 20);
    // Steady durations have no or little spread
    const bool isSteady = r.chance(4);
    const long steady = r.range(1, 1l << r.range(1, 30)), jitter = r.chance(2) ? 0 : r.range(0, 2);
    bool incremented = false;
    while (length-- > 0) {
      // Up to hours
      const long step = isSteady ? steady + r.range(0, jitter) : r.chance(5) ? 0 : r.range(0, 1l << r.range(1, 30));
      const long advance = std::min(step, 10000000000000l / grain) * grain;
      steadyNow += advance;
      systemNow += r.range(-2000000000, 1000000000);
      const int who = r.chance(4);
      auto& c = chronos[who];
      auto& a = accounts[who];
      text += cat(" +", advance);
      switch (r.range(0, 9)) {
        case 0: {
          const auto o = offset();
          const bool given = r.chance(2);
          text += cat(" reset", who, given ? cat("(", o.count(), ")") : "");
          given ? c.reset(o) : c.reset();
          a = {};
          a.elapsed = given ? o : U();
          m.count("resets");
          break;
        }
        case 1: { // Copies are independent
          text += cat(" copy", who);
          if (r.chance(2)) {
            chronos[1 - who] = c;
          } else {
            Chronometer<U> copy(c);
            chronos[1 - who] = std::move(copy);
          }
          accounts[1 - who] = a;
          break;
        }
        case 2:
        case 3:
          if (not a.running) { // Only passing of time
            text += " idle";
            break;
          } // Else restart
        default:
          if (a.running && r.chance(6) == false) {
            text += cat(" stop", who);
            const auto inc = std::chrono::duration_cast<U>(std::chrono::nanoseconds(steadyNow - a.tic));
            m.begin(text, true);
            incremented = true;
            const auto out = c.stop();
            m.check(out == inc, "stop", [&] { return cat(out.count(), " expected ", inc.count()); });
            a.running = false;
            a.elapsed += inc;
            a.increments.push_back(inc);
            m.count("increments");
          } else {
            text += cat(a.running ? " restart" : " start", who);
            c.start();
            a.running = true;
            a.tic = steadyNow;
            m.count("starts");
          }
      }
      m.begin(text, incremented);
      examine(c, a, "after");
      examine(chronos[1 - who], accounts[1 - who], "other");
    }
    // Time passes without effect
    steadyNow += 1000000000;
    examine(chronos[0], accounts[0], "later");
  }
}

SCENARIO(seconds) { histories<std::chrono::seconds>("seconds"); }
SCENARIO(milliseconds) { histories<std::chrono::milliseconds>("milliseconds"); }
SCENARIO(microseconds) { histories<std::chrono::microseconds>("microseconds"); }
SCENARIO(nanoseconds) { histories<std::chrono::nanoseconds>("nanoseconds"); }
SCENARIO(minutes) { histories<std::chrono::minutes>("minutes"); }
SCENARIO(frames) { histories<std::chrono::duration<long, std::ratio<1, 25>>>("frames"); }
SCENARIO(reals) { histories<std::chrono::duration<double>>("real seconds"); }
SCENARIO(real_millis) { histories<std::chrono::duration<double, std::milli>>("real milliseconds"); }

VP_MAIN
