// EVERY: san=none opt=0 silent=1 not=C17
// EVERY: san=none opt=0 silent=1 files=1 only=C17
// BUILD: name=own san=none silent=1 libs=fftw3,cfitsio,boost_program_options
// RULE: A case is a case of the workloads of all the other properties, and of failing operations here. The file descriptors 1 and 2 of
//   the process are files of which the monitor reads the content after the end of the process: they must be empty; and the working
//   directory must be as well, except for the workload on FITS files. Distinct: as in the original workloads.
#include "monitor.hpp"
#include "litl.hpp"

#include "LitlIo/Fits.h"
#include "LitlRun/ProgramOptions.h"
#include "LitlRun/StepperPipeline.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTransforms/StructuringElement.h"

using namespace Litl;

/// Each operation fails
SCENARIO(failures) {
  auto& m = mon();
  auto& r = m.rng;
  int k = 0;
  const auto fail = [&](const char* name, auto&& f) {
    m.begin(cat(name, " ", k), true);
    bool threw = false;
    try {
      f();
    } catch (std::exception& e) {
      threw = e.what()[0] != 0;
    }
    m.check(threw, name);
  };
  for (; k < 30 * m.scale; ++k) {
    const Index n = r.range(1, 9);
    Raster<int> raster({n, n + 1});
    fail("at", [&] { raster.at({n, 0}); });
    fail("at-linear", [&] { raster.at(n * (n + 1)); });
    fail("size", [&] { Raster<int> wrong({n, n}, std::vector<int>(n * n + 1)); });
    fail("slice", [&] { Raster<int, 3>({3, 3, 3}).slice<1>(Box<3>({0, 0, 0}, {1, 1, 1})); });
    fail("null", [&] { isAligned(static_cast<int*>(nullptr), 8); });
    alignas(16) char buffer[64];
    fail("alignment", [&] { AlignedRaster<char, 1>({4}, buffer + 1, 16); });
    fail("array", [&] { Raster<int, 1, StdHolder<std::array<int, 4>>> wrong({3}); });
    fail("fits-read", [&] { Fits("none.fits").read<Raster<int>>(); });
    fail("fits-write", [&] { Fits("/none/none.fits").write(raster); });
    fail("option-unknown", [&] {
      ProgramOptions o("Text");
      o.parse("exe --none");
    });
    fail("option-value", [&] {
      ProgramOptions o("Text");
      o.named<int>("value", "Help");
      o.parse("exe --value text");
    });
    fail("option-absent", [&] {
      ProgramOptions o("Text");
      o.named<int>("value", "Help");
      o.parse("exe");
      o.as<int>("value");
    });
  }
}

VP_MAIN
