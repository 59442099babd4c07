// BUILD: name=shared san=tsan define=SHARED threads=8 repeat=2 timeout=300 libs=boost_program_options
// BUILD: name=plans san=tsan define=PLANS threads=8 repeat=2 timeout=300 libs=fftw3,dl
// BUILD: name=files san=tsan define=FILES threads=8 timeout=300 libs=cfitsio
// EVERY: san=tsan opt=0 also=VP_THREADS=3 scale=0.1 threads=3 prefix=each_ not=C17,C25 timeout=300
// RULE: Either 8 threads execute random sequences of const operations on shared objects, in concurrence and before anybody uses them
//   sequentially, and the results are compared with those of a later sequential execution; or threads create, execute, move and destroy
//   their own plans while a monitor of the FFTW planner checks mutual exclusion; or 3 threads run the workload of each of the other
//   properties on their own objects, and anything which fails then and not alone is reported. The thread sanitizer watches all memory
//   accesses. A case is a case of these workloads, or an operation executed by a thread. Distinct: by workload and parameters.
#include "litl.hpp"

#include <atomic>
#include <thread>

using namespace Litl;

constexpr int threadCount = 8;

using Result = std::vector<double>;
struct Operation {
  std::string name;
  std::function<Result()> run;
};

static bool same(const Result& a, const Result& b) {
#ifdef PLANS // The algorithm depends on time measurements
  bool out = a.size() == b.size();
  for (std::size_t i = 0; out && i < a.size(); ++i) {
    out = std::fabs(a[i] - b[i]) <= 1e-9;
  }
  return out;
#else
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
#endif
}

/// Run things together
template <typename F>
void together(F&& f) {
  std::atomic<int> waiting {threadCount};
  std::vector<std::thread> all;
  for (int i = 0; i < threadCount; ++i) {
    all.emplace_back([&, i] {
      --waiting;
      while (waiting > 0) {
      }
      f(i);
    });
  }
  for (auto& t : all) {
    t.join();
  }
}

static Result attempt(const Operation& o) {
  try {
    return o.run();
  } catch (const std::exception& e) {
    return {-12345, double(std::strlen(e.what()))};
  }
}

/// Execute operations in random orders
static void share(const std::string& name, const std::vector<Operation>& operations, int length) {
  auto& m = mon();
  m.begin(name, true);
  struct Step {
    int operation;
    Result result;
  };
  std::vector<std::vector<Step>> steps(threadCount);
  for (int i = 0; i < threadCount; ++i) {
    const int start = m.rng.range(0, operations.size() - 1);
    for (int j = 0; j < length; ++j) {
      // Either all together on the same operations, or mixed
      const int o = j < int(operations.size()) ? j : j < 2 * int(operations.size()) ? (start + j) % operations.size() : m.rng.range(0, operations.size() - 1);
      steps[i].push_back({o, {}});
    }
  }
  together([&](int i) {
    vp::Rng rng(i);
    for (auto& s : steps[i]) {
      if (rng.chance(4)) {
        std::this_thread::yield();
      }
      s.result = attempt(operations[s.operation]);
    }
  });
  std::vector<Result> expected;
  for (const auto& o : operations) {
    expected.push_back(attempt(o));
  }
  for (const auto& t : steps) {
    for (const auto& s : t) {
      const auto& o = operations[s.operation];
      m.begin(name + ": " + o.name, true);
      m.check(same(s.result, expected[s.operation]), "concurrent-result", [&] {
        return cat(o.name, " gave ", s.result, " expected ", expected[s.operation]);
      });
      m.count("concurrent operations");
    }
  }
}

template <typename T>
Result values(const T& c) {
  Result out;
  for (const auto& e : c) {
    out.push_back(double(e));
  }
  return out;
}
template <typename T>
Result complexes(const T& c) {
  Result out;
  for (const auto& e : c) {
    out.push_back(e.real());
    out.push_back(e.imag());
  }
  return out;
}
template <typename T>
Result walk(const T& region) {
  Result out;
  for (const auto& p : region) {
    for (auto i : p) {
      out.push_back(i);
    }
  }
  return out;
}
static Result text(const std::string& s) {
  return Result(s.begin(), s.end());
}

#ifdef SHARED

#include "LitlContainer/Sequence.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Sampling.h"
#include "LitlRun/Chronometer.h"
#include "LitlRun/ProgramOptions.h"
#include "LitlRun/StepperPipeline.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTransforms/StructuringElement.h"

/// Operations which any raster has
template <typename TRaster>
void rasterOperations(std::vector<Operation>& out, const std::string& name, const TRaster& r) {
  const auto add = [&](const char* operation, std::function<Result()> f) {
    out.push_back({name + " " + operation, f});
  };
  using T = std::decay_t<typename TRaster::Value>;
  add("iterate", [&] { return values(r); });
  add("properties", [&] { return Result {double(r.size()), double(r.dimension()), double(r.length(0)), double(r.shape()[0])}; });
  add("at", [&] {
    Result v;
    for (const auto& p : r.domain()) {
      v.push_back(r.at(p));
      v.push_back(r[p]);
      v.push_back(r.index(p));
    }
    return v;
  });
  add("at out", [&] { return Result {double(r.at(Index(r.size())))}; });
  add("equal", [&] { return Result {double(r == r), double(r != r)}; });
  add("domain", [&] { return walk(r.domain()); });
  add("subraster", [&] {
    auto box = r.domain();
    if (box.size() > 1) {
      box = Box<TRaster::Dimension>(box.front(), box.back() - (box.back() - box.front()) / 2);
    }
    return values(r.subraster(box));
  });
  add("section", [&] { return values(r.section(r.shape()[r.dimension() - 1] / 2)); });
  add("sections", [&] { return values(r.section(0, r.shape()[r.dimension() - 1] / 2)); });
  add("contains", [&] { return Result {double(r.contains(r.domain().back())), double(r.contains(r.domain().back() + 1))}; });
  add("text", [&] {
    std::ostringstream os;
    os << r;
    return text(os.str());
  });
  add("statistics", [&] {
    DataDistribution<T> d(r);
    return Result {double(d.min()), double(d.max()), double(d.sum()), double(d.mean()), double(d.variance()), double(d.median()), double(d.mad()), double(d.quantile(.3))};
  });
}

template <typename TRaster>
void owningOperations(std::vector<Operation>& out, const std::string& name, const TRaster& r) {
  const auto add = [&](const char* operation, std::function<Result()> f) {
    out.push_back({name + " " + operation, f});
  };
  using T = typename TRaster::Value;
  add("copy", [&] {
    TRaster c = r;
    c[0] += T(1);
    return values(c);
  });
  add("add", [&] { return values(r + r); });
  add("subtract", [&] { return values(r - T(3)); });
  add("multiply", [&] { return values(T(2) * r); });
  add("divide", [&] { return values(r / T(2)); });
  add("negate", [&] { return values(-r); });
  add("absolute", [&] { return values(abs(r)); });
  add("lesser", [&] { return values(min(r, T(2))); });
  add("generate", [&] {
    TRaster c(r.shape());
    c.generate([](auto a, auto b) { return a * 2 + b; }, r, r);
    return values(c);
  });
  add("apply", [&] {
    TRaster c(r);
    c.apply([](auto a, auto b) { return a - b * 2; }, r);
    return values(c);
  });
  add("fill", [&] {
    TRaster c(r);
    return values(c.range(T(1), T(2)) - r);
  });
}

SCENARIO(rasters) {
  auto& rng = mon().rng;
  for (int k = 0; k < 2 * mon().scale; ++k) {
    Raster<int, 2> ints({rng.range(2, 20), rng.range(2, 20)});
    Raster<double, 3> reals({rng.range(2, 6), rng.range(2, 6), rng.range(2, 6)});
    Raster<float, -1> dynamic(Position<-1> {rng.range(2, 9), rng.range(2, 9), 3});
    AlignedRaster<short, 2> aligned({rng.range(2, 20), rng.range(2, 20)});
    Raster<long, 1, StdHolder<std::array<long, 9>>> array({9});
    const auto fill = [&](auto& r) {
      for (auto& e : r) {
        e = rng.range(-9, 9);
      }
    };
    fill(ints), fill(reals), fill(dynamic), fill(aligned), fill(array);
    const PtrRaster<const int, 2> view(ints.shape(), ints.data());
    const PtrRaster<double, 3> mutableView(reals.shape(), reals.data());
    std::vector<Operation> all;
    rasterOperations(all, "ints", ints);
    rasterOperations(all, "reals", reals);
    rasterOperations(all, "dynamic", dynamic);
    rasterOperations(all, "aligned", aligned);
    rasterOperations(all, "view", view);
    rasterOperations(all, "mutable view", mutableView);
    owningOperations(all, "ints", ints);
    owningOperations(all, "reals", reals);
    owningOperations(all, "dynamic", dynamic);
    all.push_back({"array copy", [&] { return values(array); }});
    all.push_back({"array add", [&] { return values(array + array); }});
    all.push_back({"math", [&] { return values(exp(reals)); }});
    all.push_back({"power", [&] { return values(pow(reals, 2.)); }});
    all.push_back({"slice", [&] { return values(reals.template slice<2>(Box<3>({0, 0, 1}, {reals.template length<0>() - 1, reals.template length<1>() - 1, 1}))); }});
    all.push_back({"contiguous", [&] { return Result {double(reals.template isContiguous<1>(Box<3>({0, 0, 1}, {1, 0, 1})))}; }});
    share(cat("rasters ", list(toVec(ints.shape())), list(toVec(reals.shape()))), all, 3 * all.size());
  }
}

SCENARIO(containers) {
  auto& rng = mon().rng;
  for (int k = 0; k < 4 * mon().scale; ++k) {
    Sequence<int> ints(rng.range(8, 40));
    Sequence<double, AlignedBuffer<double>> reals(rng.range(8, 40));
    Sequence<std::complex<double>> complexSequence(rng.range(8, 40));
    for (auto& e : ints) {
      e = rng.range(-9, 9);
    }
    for (auto& e : reals) {
      e = rng.real(0, 10);
    }
    for (auto& e : complexSequence) {
      e = {rng.real(-1, 1), rng.real(-1, 1)};
    }
    const auto& ci = ints;
    const auto& cr = reals;
    const auto& cc = complexSequence;
    std::vector<Operation> all {
        {"at", [&] { return Result {double(ci.at(-1)), double(ci.at(0)), double(ci.front()), double(ci.back())}; }},
        {"at out", [&] { return Result {double(ci.at(1000))}; }},
        {"copy", [&] {
           Sequence<int> c(ci);
           return values(c);
         }},
        {"aligned copy", [&] {
           Sequence<double, AlignedBuffer<double>> c(cr);
           return Result {c[0], double(c.owns()), double(c.alignment() >= 16)};
         }},
        {"ownership", [&] { return Result {double(cr.owns()), double(cr.alignmentReq())}; }},
        {"arithmetic", [&] { return values(ci * 2 + ci - 1); }},
        {"modulo", [&] { return values(ci % 5); }},
        {"incremented", [&] {
           auto c = ci;
           ++c;
           return values(c);
         }},
        {"complex", [&] { return complexes(cc * std::complex<double>(0, 2) + cc); }},
        {"complex exp", [&] { return complexes(exp(cc)); }},
        {"text", [&] {
           std::ostringstream os;
           os << ci << cc;
           return text(os.str());
         }},
        {"statistics", [&] { 
           auto di = ci.distribution();
           auto dr = cr.distribution();
           return Result {di.mean(), dr.mean(), di.median(), dr.variance(), di.mad(), di.quantile(.7)};
         }},
        {"noise", [&] {
           Sequence<double> c(20);
           c.generate(UniformNoise<double>(0, 1, 5));
           c.apply(GaussianNoise<double>(0, 1, 6));
           return values(c);
         }},
        {"stable noise", [&] {
           Sequence<int> c(20);
           c.generate(StablePoissonNoise<int>(5));
           return values(c);
         }},
        {"random", [&] { // Drawn from a generator of its own
           return Result {double(random<int>(13).size())};
         }},
        {"linspace", [&] {
           Sequence<double> c(11);
           return values(c.linspace(0., 1.));
         }}};
    share(cat("containers ", ints.size()), all, 6 * all.size());
  }
}

SCENARIO(regions) {
  auto& rng = mon().rng;
  for (int k = 0; k < 3 * mon().scale; ++k) {
    const Box<3> box({rng.range(-5, 0), rng.range(-5, 0), rng.range(-3, 0)}, {rng.range(1, 5), rng.range(1, 5), rng.range(1, 3)});
    const Box<-1> dynamic(Position<-1> {0, rng.range(-5, 0)}, Position<-1> {rng.range(1, 5), rng.range(1, 5)});
    const Ball<2> ball(rng.range(1, 6), Position<2> {rng.range(-5, 5), 1});
    const Ball<3, 1> diamond(rng.range(1, 4), Position<3> {0, rng.range(-5, 5), 1});
    const Position<3> p {1, rng.range(-9, 9), 3};
    const auto whole = Box<3>::whole();
    const PositionSampling<3> sampling(box, Position<3> {1, 2, 3});
    Raster<int> raster({9, 11});
    for (auto& e : raster) {
      e = rng.range(0, 99);
    }
    const auto& cr = raster;
    const IndexSampling indices {1, 20, 3};
    const DataSamples<int> samples(raster.data(), 30, indices, 2);
    std::vector<Operation> all {
        {"box", [&] { return walk(box); }},
        {"dynamic box", [&] { return walk(dynamic); }},
        {"box properties", [&] { return Result {double(box.size()), double(box.length<1>()), double(box.dimension()), double(box.shape()[2])}; }},
        {"box contains", [&] { return Result {double(clamp(p, box) == p), double(clamp(p, whole) == p), double(box == whole)}; }},
        {"box arithmetic", [&] { return walk(box + p); }},
        {"box margin", [&] { return walk(box + Box<3>::fromCenter(1)); }},
        {"box surround", [&] {
           Result out;
           for (const auto& b : box.surround(Box<3>::fromCenter(1))) {
             for (const auto v : walk(b)) {
               out.push_back(v);
             }
           }
           return out;
         }},
        {"box project", [&] { return walk(project(box)); }},
        {"box copy", [&] {
           auto c = box;
           c += 1;
           return walk(c);
         }},
        {"box clamp", [&] { return values(clamp(p, box)); }},
        {"ball", [&] { return walk(ball); }},
        {"ball size", [&] { return Result {double(ball.size()), double(diamond.size())}; }},
        {"diamond", [&] { return walk(diamond); }},
        {"ball contains", [&] { return Result {double(ball == ball), double(diamond != diamond)}; }},
        {"position", [&] { return values(p + p * 2 - 1); }},
        {"constants", [&] { return values(Position<3>::zero() + Position<3>::one()); }},
        {"shape size", [&] { return Result {double(shapeSize(p)), double(shapeStride<1>(p))}; }},
        {"sampling", [&] { return values(sampling.shape()); }},
        {"axis sampling", [&] { return values(sampling.along<1>()); }},
        {"samples", [&] { return values(samples.vector()); }},
        {"indices", [&] { return values(indices.vector()); }}};
    share(cat("regions ", list(toVec(box.front())), list(toVec(box.back()))), all, 6 * all.size());
  }
}

SCENARIO(filters) {
  auto& rng = mon().rng;
  for (int k = 0; k < 3 * mon().scale; ++k) {
    Raster<float> raster({rng.range(5, 16), rng.range(5, 16)});
    Raster<int, 1> line({30});
    for (auto& e : raster) {
      e = rng.range(-99, 99);
    }
    for (auto& e : line) {
      e = rng.range(-99, 99);
    }
    const auto& cr = raster;
    const auto constant = extrapolate(cr, 3.f);
    const auto nearest = extrapolate<NearestNeighbor>(cr);
    const auto periodic = extrapolate<Periodic>(cr);
    const auto linear = interpolate<Linear>(nearest);
    const auto cubic = interpolate<Cubic>(constant);
    const auto inside = interpolate<NearestNeighbor>(cr);
    const auto kernel = kernelize(Raster<float>({3, 3}, std::vector<float> {1, 2, 3, 4, 5, 6, 7, 8, 9}));
    const LineKernel<int> lineKernel({1, -2, 3});
    const auto sobel = SeparableKernel<float, 0, 1>::sobel();
    const MedianFilter<float, 2> median(1);
    const StructuringElement<float, 2> element(1);
    const StructuringElement<float, 2, Ball<2>> disk(Ball<2>(2));
    const Box<2> region({2, 2}, raster.shape() - 3);
    const auto everywhere = [&](const auto& in) {
      Result out;
      for (const auto& p : in.domain() + Box<2>::fromCenter(2)) {
        out.push_back(in[p]);
      }
      return out;
    };
    const auto between = [&](const auto& in) {
      Result out;
      for (double x = 0.25; x < raster.shape()[0] - 1; x += 0.75) {
        for (double y = 0.5; y < raster.shape()[1] - 1; y += 1.25) {
          out.push_back(in(Vector<double, 2> {x, y}));
        }
      }
      return out;
    };
    std::vector<Operation> all {
        {"constant", [&] { return everywhere(constant); }},
        {"nearest", [&] { return everywhere(nearest); }},
        {"periodic", [&] { return everywhere(periodic); }},
        {"linear", [&] { return between(linear); }},
        {"cubic", [&] { return between(cubic); }},
        {"inside", [&] { return between(inside); }},
        {"new linear", [&] { return between(interpolate<Linear>(nearest)); }},
        {"rasterize", [&] { return values(rasterize(nearest)); }},
        {"kernel", [&] {
           auto copy = kernel;
           return values(copy * constant);
         }},
        {"kernel nearest", [&] {
           auto copy = kernel;
           return values(copy * nearest);
         }},
        {"kernel periodic", [&] {
           auto copy = kernel;
           Raster<double> out(cr.shape());
           copy.correlateTo(periodic, out);
           return values(out);
         }},
        {"kernel properties", [&] {
           auto out = values(kernel.raster());
           out.push_back(kernel.window().size());
           return out;
         }},
        {"line kernel", [&] {
           auto copy = lineKernel;
           return Result {double(copy.size()), double(copy.origin()), double(lineKernel.window().size()), double(copy[1])};
         }},
        {"along", [&] { return values(lineKernel.along<0>().compose().raster()); }},
        {"sobel", [&] {
           auto copy = sobel;
           return values(copy * cr);
         }},
        {"compose", [&] { return values(sobel.compose().raster()); }},
        {"window", [&] { return walk(sobel.window()); }},
        {"prewitt", [&] { return values(SeparableKernel<float, 1, 0>::prewitt(2).compose().raster()); }},
        {"median", [&] {
           auto copy = median;
           Raster<float> out(cr.shape());
           copy.applyTo(cr, out, region);
           return Result {out[region.front()], out[region.back()]};
         }},
        {"median extrapolated", [&] {
           auto copy = median;
           return values(copy.apply(nearest));
         }},
        {"erode", [&] {
           auto copy = element;
           Raster<float> out(cr.shape());
           copy.erodeTo(nearest, out);
           return values(out);
         }},
        {"dilate", [&] {
           auto copy = disk;
           Raster<float> out(cr.shape());
           copy.dilateTo(constant, out);
           return values(out);
         }},
        {"element median", [&] {
           auto copy = disk;
           return values(copy.median(periodic));
         }}};
    share(cat("filters ", list(toVec(raster.shape()))), all, 5 * all.size());
  }
}

struct Load : PipelineStep<void, double> {};
struct Process : PipelineStep<Load, double> {};
struct Pipe : StepperPipeline<Pipe> {
  template <typename S>
  void doEvaluate();
  template <typename S>
  typename S::Return doGet();
  double value = 0;
};
template <>
void Pipe::doEvaluate<Load>() {
  value = 3;
}
template <>
double Pipe::doGet<Load>() {
  return 3;
}
template <>
void Pipe::doEvaluate<Process>() {
  value *= 2;
}
template <>
double Pipe::doGet<Process>() {
  return value;
}

SCENARIO(run) {
  for (int k = 0; k < 5 * mon().scale; ++k) {
    ProgramOptions options("Description");
    options.positional<int>("first", "First");
    options.named<double>("second,s", "Second", 1.5);
    options.flag("flag,f", "Flag");
    const ProgramOptions unparsed = options;
    options.parse("exe 12 -f");
    Pipe pipe;
    pipe.get<Load>();
    Chronometer<std::chrono::nanoseconds> chrono;
    for (int i = 0; i < 5; ++i) {
      chrono.start();
      chrono.stop();
    }
    const auto& co = options;
    const auto& cp = pipe;
    const auto& cc = chrono;
    std::vector<Operation> all {
        {"options", [&] { return Result {double(co.as<int>("first")), co.as<double>("second"), double(co.as<bool>("flag")), double(co.has("third"))}; }},
        {"absent", [&] { return Result {double(co.as<int>("third"))}; }},
        {"copied options", [&] {
           auto copy = unparsed;
           copy.named<int>("more", "More", 4);
           copy.parse("exe 3 --second 2 --more 7");
           return Result {double(copy.as<int>("first")), copy.as<double>("second"), double(copy.as<bool>("flag")), double(copy.as<int>("more"))};
         }},
        {"help", [&] {
           std::ostringstream os;
           os << co.asPair().first;
           return text(os.str());
         }},
        {"pipeline", [&] { return Result {double(cp.evaluated<Load>()), double(cp.evaluated<Process>()), cp.milliseconds<Process>(), cp.milliseconds<Load>(), cp.milliseconds()}; }},
        {"copied pipeline", [&] {
           auto copy = cp;
           return Result {copy.get<Process>(), double(copy.evaluated<Process>())};
         }},
        {"own pipeline", [&] {
           Pipe own;
           return Result {own.get<Process>(), own.get<Process>(), double(own.evaluated<Load>())};
         }},
        {"chronometer", [&] { return Result {cc.mean(), cc.stdev(), cc.min(), cc.max(), double(cc.last().count()), double(cc.elapsed().count()), double(cc.count()), double(cc.isRunning())}; }},
        {"own chronometer", [&] {
           Chronometer<std::chrono::milliseconds> own;
           own.start();
           own.stop();
           return Result {double(own.count())};
         }},
        {"error", [&] {
           try {
             OutOfBoundsError::mayThrow("name", 3, {0, 2});
           } catch (Exception& e) {
             return text(e.append("line", 2).what());
           }
           return Result {};
         }}};
    share(cat("run ", k), all, 8 * all.size());
  }
}

#endif

#ifdef PLANS

#include <dlfcn.h>

#include "LitlTransforms/Dft.h"

// Monitor of the planner, which does not support concurrency (as opposed to execution)

static std::atomic<int> inPlanner {0};
static std::atomic<long> plannerCalls {0};
static std::atomic<long> plannerOverlaps {0};
static std::atomic<long> created {0};
static std::atomic<long> destroyed {0};

struct Planning {
  Planning() {
    if (inPlanner.fetch_add(1, std::memory_order_relaxed) > 0) {
      plannerOverlaps.fetch_add(1, std::memory_order_relaxed);
    }
    if (plannerCalls.fetch_add(1, std::memory_order_relaxed) % 3 == 0) {
      usleep(50); // Give others a chance to come in
    }
  }
  ~Planning() {
    inPlanner.fetch_sub(1, std::memory_order_relaxed);
  }
};

template <typename F>
F next(F, const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
static const auto planDft = next(&fftw_plan_dft, "fftw_plan_dft");
static const auto planR2c = next(&fftw_plan_dft_r2c, "fftw_plan_dft_r2c");
static const auto planC2r = next(&fftw_plan_dft_c2r, "fftw_plan_dft_c2r");
static const auto destroyPlan = next(&fftw_destroy_plan, "fftw_destroy_plan");
static std::mutex realPlanner; // So that FFTW itself does not crash when the library lets threads overlap

extern "C" {
fftw_plan fftw_plan_dft(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  Planning p;
  ++created;
  std::lock_guard<std::mutex> lock(realPlanner);
  return planDft(rank, n, in, out, sign, flags);
}
fftw_plan fftw_plan_dft_r2c(int rank, const int* n, double* in, fftw_complex* out, unsigned flags) {
  Planning p;
  ++created;
  std::lock_guard<std::mutex> lock(realPlanner);
  return planR2c(rank, n, in, out, flags);
}
fftw_plan fftw_plan_dft_c2r(int rank, const int* n, fftw_complex* in, double* out, unsigned flags) {
  Planning p;
  ++created;
  std::lock_guard<std::mutex> lock(realPlanner);
  return planC2r(rank, n, in, out, flags);
}
void fftw_destroy_plan(fftw_plan plan) {
  Planning p;
  ++destroyed;
  std::lock_guard<std::mutex> lock(realPlanner);
  return destroyPlan(plan);
}
}

template <typename TPlan, typename TIn>
Result history(const Position<2>& shape, std::uint64_t seed, bool inverse) {
  vp::Rng rng(seed);
  Result out;
  std::vector<TPlan> plans;
  for (int i = rng.range(1, 3); i > 0; --i) {
    TPlan plan(shape);
    for (auto& e : plan.in()) {
      e = TIn(rng.range(-9, 9));
    }
    if (rng.chance(2)) {
      TPlan moved(std::move(plan));
      moved.transform();
      plans.push_back(std::move(moved));
    } else {
      plan.transform();
      plans.push_back(std::move(plan));
    }
    if (rng.chance(3)) {
      std::this_thread::yield();
    }
  }
  auto& last = plans.back();
  if (inverse) {
    auto back = last.inverse(); // Garbages the buffers
    for (auto& e : last.in()) {
      e = TIn(rng.range(-9, 9));
    }
    last.transform();
    for (const auto& e : last.out()) {
      out.push_back(std::real(e));
      out.push_back(std::imag(e));
    }
    back.transform().normalize();
    for (const auto& e : last.in()) {
      out.push_back(std::real(e));
    }
  } else {
    for (const auto& e : last.out()) {
      out.push_back(std::real(e));
      out.push_back(std::imag(e));
    }
  }
  if (plans.size() > 1 && not inverse) {
    plans[0] = std::move(plans[1]);
    out.push_back(std::real(plans[0].out()[0]));
  }
  return out;
}

static void plans(const char* name, int repeats, bool shared) {
  auto& m = mon();
  for (int k = 0; k < repeats * m.scale; ++k) {
    const Position<2> shape {m.rng.range(1, 12), m.rng.range(1, 12)};
    const std::uint64_t seed = m.rng.next();
    Raster<double> real(shape);
    Raster<std::complex<double>> cpx(shape);
    for (auto& e : real) {
      e = m.rng.range(-9, 9);
    }
    for (auto& e : cpx) {
      e = {m.rng.real(-1, 1), m.rng.real(-1, 1)};
    }
    const auto& cr = real;
    const auto& cc = cpx;
    RealDft<2> plan(shape);
    std::copy(real.begin(), real.end(), plan.in().begin());
    plan.transform();
    const auto& cp = plan;
    std::vector<Operation> all {
        {"real plans", [=] { return history<RealDft<2>, double>(shape, seed, false); }},
        {"real plans and inverse", [=] { return history<RealDft<2>, double>(shape, seed, true); }},
        {"complex plans", [=] { return history<ComplexDft<2>, std::complex<double>>(shape, seed + 1, true); }},
        {"inverse plans", [=] { return history<ComplexDft<2>::Inverse, std::complex<double>>(shape, seed + 2, false); }}};
    if (shared) {
      all.push_back({"transform of a shared raster", [&] { return complexes(realDft(cr)); }});
      all.push_back({"complex transform of a shared raster", [&] { return complexes(complexDft(cc)); }});
      all.push_back({"inverse transform of a shared raster", [&] { return complexes(inverseComplexDft(cc)); }});
      all.push_back({"shared plan", [&] {
                       auto out = complexes(cp.out());
                       out.push_back(cp.normalizationFactor());
                       out.push_back(cp.in()[0]);
                       out.push_back(cp.logicalShape()[0] + cp.inShape()[1] + cp.outShape()[0]);
                       return out;
                     }});
    }
    share(cat(name, " ", list(toVec(shape)), " ", seed % 1000), all, 4 * all.size());
    m.check(plannerOverlaps == 0, "planner-exclusion", [&] { return cat(plannerOverlaps.load(), " overlaps out of ", plannerCalls.load(), " calls"); });
    m.events["planner calls"] = plannerCalls;
  }
  m.check(created == destroyed, "plans-destroyed", [&] { return cat(created.load(), " created and ", destroyed.load(), " destroyed"); });
  m.events["plans created"] = created;
}

SCENARIO(own) { plans("own plans", 12, false); }
SCENARIO(mixed) { plans("mixed plans", 12, true); }

#endif

#ifdef FILES

#include "LitlIo/Fits.h"

SCENARIO(files) { // Each thread has its own
  auto& m = mon();
  for (int k = 0; k < 3 * m.scale; ++k) {
    Raster<int> shared({m.rng.range(1, 20), m.rng.range(1, 20)});
    Raster<float, 3> real({3, m.rng.range(1, 9), 2});
    for (auto& e : shared) {
      e = m.rng.range(-9999, 9999);
    }
    for (auto& e : real) {
      e = m.rng.real(-1, 1);
    }
    const auto& cs = shared;
    const auto& cf = real;
    static std::atomic<int> number {0};
    const auto name = [] { return cat("f", number++, ".fits"); };
    std::vector<Operation> all {
        {"write and read", [&] {
           const auto f = name();
           Fits(f).write(cs);
           return values(Fits(f).read<Raster<int>>());
         }},
        {"write and read reals", [&] {
           const auto f = name();
           Fits(f).write(cf);
           return values(Fits(f).read<Raster<float, 3>>());
         }},
        {"missing", [&] {
           return values(Fits("missing").read<Raster<int>>());
         }}};
    share(cat("files ", list(toVec(shared.shape()))), all, 20);
  }
}

#endif

VP_MAIN
