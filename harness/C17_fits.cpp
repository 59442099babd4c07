// BUILD: name=run san=asan parts=2 libs=cfitsio
// RULE: A case is a raster (pixel type, fixed or run-time dimension, holder, boundary-biased shape, full-range values) written by the
//   library and read back by the library (same, higher, lower and run-time dimension) and by CFITSIO itself; or a file written by
//   CFITSIO with another pixel type; or a fault: missing, empty, directory, garbage, truncated, existing or unreachable file, or file
//   size limit, followed by a valid use of the same object. Exceptions, values, shapes, pixel types, other files and the number of
//   open descriptors are monitored. Non-trivial: size > 1 or fault. Distinct: by raster, file and fault.
#include "litl.hpp"

#include "LitlIo/Fits.h"

#include <csignal>
#include <dirent.h>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>

using namespace Litl;

static long fileNumber = 0;
static std::string newName() {
  return "f" + std::to_string(++fileNumber) + ".fits";
}

static int openDescriptors() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) {
      ++n;
    }
    closedir(d);
  }
  return n;
}

static std::string slurp(const std::string& name) {
  std::ifstream f(name, std::ios::binary);
  std::ostringstream os;
  os << f.rdbuf();
  return os.str();
}
static void spit(const std::string& name, const std::string& content) {
  std::ofstream f(name, std::ios::binary);
  f << content;
}
static bool exists(const std::string& name) {
  struct stat s;
  return lstat(name.c_str(), &s) == 0;
}

/// Check that descriptors are balanced at end of scope
struct Descriptors {
  int before = openDescriptors();
  const char* key;
  explicit Descriptors(const char* k) : key(k) {}
  ~Descriptors() {
    const int after = openDescriptors();
    mon().check(after == before, key, [&] { return cat("open descriptors: ", before, " then ", after); });
  }
};

// Independent description of pixel types
template <typename T>
struct Pixel;
#define PIXEL(T, DATATYPE) \
  template <> \
  struct Pixel<T> { \
    static int datatype() { \
      return DATATYPE; \
    } \
  };
PIXEL(char, TSBYTE)
PIXEL(signed char, TSBYTE)
PIXEL(unsigned char, TBYTE)
PIXEL(short, TSHORT)
PIXEL(unsigned short, TUSHORT)
PIXEL(int, TINT)
PIXEL(unsigned int, TUINT)
PIXEL(long, TLONG)
PIXEL(unsigned long, TULONG)
PIXEL(long long, TLONGLONG)
PIXEL(unsigned long long, TULONGLONG)
PIXEL(float, TFLOAT)
PIXEL(double, TDOUBLE)

/// Does an image type (with its scaling) represent all the values of a pixel type?
template <typename T>
bool represents(int bitpix, long double bscale, long double bzero) {
  using L = std::numeric_limits<T>;
  if (bitpix < 0) {
    const int digits = bitpix == FLOAT_IMG ? 24 : 53;
    return bscale == 1 && bzero == 0 && L::digits <= digits;
  }
  if (bscale != 1) {
    return false;
  }
  long double lo = bitpix == BYTE_IMG ? 0 : -std::pow(2.0L, bitpix - 1);
  long double hi = bitpix == BYTE_IMG ? 255 : -lo - 1;
  lo += bzero;
  hi += bzero;
  return L::is_integer && lo <= (long double)(L::lowest()) && hi >= (long double)(L::max());
}

template <typename T>
T anyValue(vp::Rng& r) {
  using L = std::numeric_limits<T>;
  switch (r.range(0, 4)) {
    case 0:
      return L::max();
    case 1:
      return L::lowest();
    case 2:
      return vp::smallValue<T>(r, -99, 99);
    default:
      if (L::is_integer) {
        T out;
        const auto bits = r.next();
        std::memcpy(&out, &bits, sizeof(T));
        return out;
      }
      return r.chance(5) ? L::infinity() : r.chance(5) ? -L::infinity() : r.chance(5) ? L::min() : r.chance(5) ? L::denorm_min() : T(r.real(-1e6, 1e6));
  }
}

template <typename T>
struct Content {
  Vec shape;
  std::vector<T> values;
};
template <typename T>
Content<T> randomContent(vp::Rng& r, int dim) {
  Content<T> out;
  out.shape = vp::shapeBiased(r, dim, r.pick<long>({1, 9, 100, 700, r.chance(4) ? 6000l : 60l, r.chance(8) ? vp::sizeLarge(r, 140000) : 20l}));
  for (long i = 0; i < vp::product(out.shape); ++i) {
    out.values.push_back(anyValue<T>(r));
  }
  return out;
}

template <typename TRaster, typename T>
void compare(const TRaster& raster, const Content<T>& content, const char* key) {
  auto& m = mon();
  auto shape = content.shape;
  while (shape.size() < raster.shape().size()) {
    shape.push_back(1);
  }
  m.check(toVec(raster.shape()) == shape && raster.size() == content.values.size(), key, [&] { return cat("shape ", toVec(raster.shape())); });
  if (raster.size() != content.values.size()) {
    return;
  }
  for (std::size_t i = 0; i < content.values.size(); ++i) {
    m.check(raster[i] == typename TRaster::Value(content.values[i]), key, [&] {
      return cat("index ", i, " got ", vp::show(raster[i]), " expected ", vp::show(content.values[i]));
    });
  }
}

/// Inspect a file with CFITSIO
template <typename T>
void inspect(const std::string& name, const Content<T>& content) {
  auto& m = mon();
  fitsfile* f = nullptr;
  int status = 0, image = 0, naxis = 0, hdus = 0;
  long naxes[99] = {};
  fits_open_file(&f, name.c_str(), READONLY, &status);
  m.check(status == 0, "file-inspection");
  if (status) {
    return;
  }
  fits_get_img_type(f, &image, &status);
  double bzero = 0, bscale = 1;
  if (status == 0 && fits_read_key(f, TDOUBLE, "BZERO", &bzero, nullptr, &status)) {
    status = 0;
    bzero = 0;
  }
  if (status == 0 && fits_read_key(f, TDOUBLE, "BSCALE", &bscale, nullptr, &status)) {
    status = 0;
    bscale = 1;
  }
  fits_get_img_dim(f, &naxis, &status);
  fits_get_img_size(f, 99, naxes, &status);
  fits_get_num_hdus(f, &hdus, &status);
  m.check(status == 0 && represents<T>(image, bscale, bzero), "file-pixel-type", [&] {
    return cat(vp::typeName<T>(), " written as image type ", image, " zero ", bzero, " scale ", bscale);
  });
  m.check(naxis == int(content.shape.size()) && std::equal(content.shape.begin(), content.shape.end(), naxes), "file-shape", [&] { return cat("naxis ", naxis); });
  m.check(hdus == 1, "file-units");
  std::vector<T> values(content.values.size());
  fits_read_img(f, Pixel<T>::datatype(), 1, values.size(), nullptr, values.data(), nullptr, &status);
  m.check(status == 0 && values == content.values, "file-values");
  status = 0;
  fits_close_file(f, &status);
}

template <typename F>
std::string thrown(F&& f) {
  try {
    f();
  } catch (const Exception&) {
    return "Exception";
  } catch (const std::exception& e) {
    return cat("std::exception ", e.what());
  } catch (...) {
    return "unknown";
  }
  return "none";
}

template <typename T, Index M>
void readAs(Fits& io, const Content<T>& content, bool ok) {
  Descriptors descriptors("read-descriptors");
  auto& m = mon();
  if (ok) {
    compare(io.read<Raster<T, M>>(), content, M == -1 ? "read-dynamic" : M == Index(content.shape.size()) ? "read-back" : "read-higher-dimension");
    compare(io.read<AlignedRaster<T, M>>(), content, "read-aligned");
    m.count("images read", 2);
  } else {
    const auto e = thrown([&] { io.read<Raster<T, M>>(); });
    m.check(e == "Exception", "lower-dimension-refused", [&] { return cat("as dimension ", M, ": ", e); });
  }
}

template <typename T, Index N>
void roundTrip() {
  auto& m = mon();
  auto& r = m.rng;
  const int dim = vp::dimOf(N, r, 4);
  const auto content = randomContent<T>(r, dim);
  const int holder = r.range(0, 3);
  m.begin(cat("round trip ", vp::typeName<T>(), " N=", N, " holder ", holder, " shape ", content.shape, " values ", vp::list(content.values)), content.values.size() > 1);
  const auto name = newName();
  Fits io(name);
  if (r.chance(4)) { // Failure first
    Descriptors descriptors("missing-descriptors");
    m.check(thrown([&] { io.read<Raster<T, N>>(); }) == "Exception", "missing-file");
    m.check(not exists(name), "missing-file");
  }
  {
    Descriptors descriptors("write-descriptors");
    const auto p = pos<N>(content.shape);
    switch (holder) {
      case 0: {
        const Raster<T, N> raster(p, content.values);
        io.write(raster);
        compare(raster, content, "written-unchanged");
        break;
      }
      case 1: {
        auto values = content.values;
        PtrRaster<T, N> raster(p, values.data());
        io.write(raster);
        compare(raster, content, "written-unchanged");
        break;
      }
      case 2: {
        AlignedRaster<T, N> raster(p);
        std::copy(content.values.begin(), content.values.end(), raster.begin());
        io.write(raster);
        compare(raster, content, "written-unchanged");
        break;
      }
      default:
        io.write(Raster<T, N>(p, content.values));
    }
    m.count("images written");
  }
  inspect(name, content);
  const auto bytes = slurp(name);
  Fits other(name);
  Fits& reader = r.chance(2) ? other : io;
  readAs<T, -1>(reader, content, true);
  readAs<T, 1>(reader, content, dim <= 1);
  readAs<T, 2>(reader, content, dim <= 2);
  readAs<T, 3>(reader, content, dim <= 3);
  readAs<T, 4>(reader, content, true);
  readAs<T, N>(reader, content, true);
  { // Writing over it
    Descriptors descriptors("overwrite-descriptors");
    const auto e = thrown([&] { reader.write(Raster<T, 2>({3, 2})); });
    m.check(e == "Exception", "overwrite-refused", [&] { return e; });
    m.check(slurp(name) == bytes, "overwrite-refused", [&] { return "file was modified"; });
  }
  readAs<T, -1>(reader, content, true); // Still works
  readAs<T, -1>(io, content, true);
  std::remove(name.c_str());
  { // And again
    m.check(thrown([&] { reader.read<Raster<T, N>>(); }) == "Exception", "missing-file");
    reader.write(Raster<T, N>(pos<N>(content.shape), content.values));
    inspect(name, content);
    readAs<T, N>(reader, content, true);
  }
  std::remove(name.c_str());
}

template <typename T>
void roundTrips() {
  for (int k = 0; k < 6 * mon().scale; ++k) {
    roundTrip<T, 1>();
    roundTrip<T, 2>();
    roundTrip<T, 3>();
    roundTrip<T, 4>();
    roundTrip<T, -1>();
  }
}

template <typename T>
void faults();

#define SCENARIOS(name, T) \
  SCENARIO(round_trip_##name) { roundTrips<T>(); } \
  SCENARIO(faults_##name) { faults<T>(); }

// -------------------------------------------------------------------- faults

/// Write with CFITSIO
template <typename T>
bool writeAs(const std::string& name, const Content<T>& content, int image) {
  fitsfile* f = nullptr;
  int status = 0;
  auto naxes = content.shape;
  fits_create_file(&f, name.c_str(), &status);
  fits_create_img(f, image, naxes.size(), naxes.data(), &status);
  auto values = content.values;
  fits_write_img(f, Pixel<T>::datatype(), 1, values.size(), values.data(), &status);
  fits_close_file(f, &status);
  return status == 0;
}

/// After a fault, the same object works if the file is fixed
template <typename T>
void recover(Fits& io, const std::string& name) {
  auto& r = mon().rng;
  const auto content = randomContent<T>(r, 2);
  std::remove(name.c_str());
  Descriptors descriptors("recovery-descriptors");
  if (r.chance(2)) {
    io.write(Raster<T, 2>(pos<2>(content.shape), content.values));
  } else {
    writeAs(name, content, DOUBLE_IMG);
    std::remove(name.c_str());
    Fits(name).write(Raster<T, 2>(pos<2>(content.shape), content.values));
  }
  inspect(name, content);
  compare(io.read<Raster<T, 2>>(), content, "recovered");
  std::remove(name.c_str());
  mon().count("recoveries");
}

template <typename T>
void refuse(Fits& io, const char* key) {
  Descriptors descriptors("fault-descriptors");
  auto& m = mon();
  const auto a = thrown([&] { io.read<Raster<T, 2>>(); });
  m.check(a == "Exception", key, [&] { return a; });
  const auto b = thrown([&] { io.read<Raster<T, -1>>(); });
  m.check(b == "Exception", key, [&] { return b; });
  m.count("faults", 2);
}

template <typename T>
void faults() {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 8 * m.scale; ++k) {
    const auto name = newName();
    Fits io(name);
    const auto content = randomContent<T>(r, 2);
    const Raster<T, 2> raster(pos<2>(content.shape), content.values);
    m.begin(cat("missing file ", vp::typeName<T>(), k));
    refuse<T>(io, "missing-file");
    m.check(not exists(name), "missing-file");
    recover<T>(io, name);

    m.begin(cat("empty file ", vp::typeName<T>(), k));
    spit(name, "");
    refuse<T>(io, "empty-file");
    recover<T>(io, name);

    m.begin(cat("garbage ", vp::typeName<T>(), k));
    std::string garbage;
    const long n = vp::sizeBiased(r, 9000);
    for (long i = 0; i < n; ++i) {
      garbage += char(r.next());
    }
    spit(name, garbage);
    refuse<T>(io, "garbage-file");
    m.check(slurp(name) == garbage, "garbage-file");
    {
      Descriptors descriptors("overwrite-descriptors");
      m.check(thrown([&] { io.write(raster); }) == "Exception", "overwrite-refused");
      m.check(slurp(name) == garbage, "overwrite-refused");
    }
    recover<T>(io, name);

    m.begin(cat("directory ", vp::typeName<T>(), k));
    mkdir(name.c_str(), 0700);
    refuse<T>(io, "directory");
    {
      Descriptors descriptors("fault-descriptors");
      m.check(thrown([&] { io.write(raster); }) == "Exception", "directory");
    }
    rmdir(name.c_str());
    recover<T>(io, name);

    m.begin(cat("unreachable location ", vp::typeName<T>(), k));
    spit("plain", "x");
    for (const auto& where : {"nowhere/" + name, "plain/" + name}) {
      Descriptors descriptors("fault-descriptors");
      Fits out(where);
      m.check(thrown([&] { out.write(raster); }) == "Exception", "unreachable-location", [&] { return where; });
      m.check(thrown([&] { out.write(raster); }) == "Exception", "unreachable-location", [&] { return where; });
      refuse<T>(out, "unreachable-location");
      m.check(not exists("nowhere"), "unreachable-location");
    }
    { // The location becomes reachable
      Fits out("nowhere/" + name);
      m.check(thrown([&] { out.write(raster); }) == "Exception", "unreachable-location");
      mkdir("nowhere", 0700);
      recover<T>(out, "nowhere/" + name);
      rmdir("nowhere");
    }

    m.begin(cat("truncated ", vp::typeName<T>(), " ", content.shape, k));
    io.write(raster);
    const auto bytes = slurp(name);
    std::vector<std::size_t> cuts {80, 2879, std::size_t(r.range(1, 2880))};
    const std::size_t data = content.values.size() * sizeof(T); // Data unit is padded to 2880 bytes
    if (data > 2880) {
      cuts.push_back(2880 + 2880 * ((data - 1) / 2880));
      cuts.push_back(2880 + 2880);
    }
    cuts.push_back(2880);
    for (auto c : cuts) {
      spit(name, bytes.substr(0, c));
      m.caseText = cat("truncated ", vp::typeName<T>(), " ", content.shape, " at byte ", c);
      refuse<T>(io, "truncated-file");
    }
    spit(name, bytes); // Repaired
    compare(io.read<Raster<T, 2>>(), content, "repaired-file");
    recover<T>(io, name);

    m.begin(cat("corrupted header ", vp::typeName<T>(), " ", content.shape, k));
    { // The shape is not that of the data
      io.write(raster);
      const auto good = slurp(name);
      const std::vector<std::string> cards {"NAXIS   =", "NAXIS1  =", "NAXIS2  =", "BITPIX  ="};
      const auto edit = [&](int card, long value) {
        auto bad = good;
        const auto at = bad.find(cards[card]);
        auto text = std::to_string(value);
        text.insert(0, 21 - std::min<std::size_t>(21, text.size()), ' ');
        bad.replace(at + 9, 21, text);
        spit(name, bad);
        m.caseText = cat("corrupted header ", vp::typeName<T>(), " ", content.shape, " ", cards[card], value);
      };
      const auto survive = [&](bool isRefused) {
        Descriptors descriptors("fault-descriptors");
        for (const auto& e :
             {thrown([&] { io.read<Raster<T, 2>>(); }), thrown([&] { io.read<Raster<T, -1>>(); }), thrown([&] { io.read<AlignedRaster<T, 2>>(); })}) {
          m.check(e != "unknown" && (e != "none" || not isRefused), "corrupted-header", [&] { return e; });
        }
        m.count("faults", 3);
      };
      for (int card : {1, 2}) {
        for (double size : {1e15, 1e16, 1e17}) { // Cannot be allocated (the sanitizer does not let new fail)
          edit(card, size / content.shape[2 - card]);
          Descriptors descriptors("fault-descriptors");
          const auto e = thrown([&] { io.read<AlignedRaster<T, 2>>(); });
          m.check(e != "unknown" && e != "none", "corrupted-header", [&] { return e; });
          m.count("faults");
        }
        edit(card, -r.range(1, 1000));
        survive(true);
        edit(card, 1000000);
        survive(true);
        edit(card, 0);
        survive(false);
      }
      for (long naxis : {0l, -1l, 3l, 1000l, 1000000l}) {
        edit(0, naxis);
        survive(true);
      }
      for (long bitpix : {0l, 7l, -33l, 1000000000l}) {
        edit(3, bitpix);
        survive(true);
      }
      spit(name, good); // Repaired
      compare(io.read<Raster<T, 2>>(), content, "repaired-file");
    }
    recover<T>(io, name);

    m.begin(cat("file size limit ", vp::typeName<T>(), k));
    { // The disk is full
      Content<T> big {{100, r.range(80, 200)}, {}};
      for (long i = 0; i < vp::product(big.shape); ++i) {
        big.values.push_back(T(i % 100));
      }
      const Raster<T, 2> bigRaster(pos<2>(big.shape), big.values);
      struct rlimit old, limit;
      getrlimit(RLIMIT_FSIZE, &old);
      limit = old;
      limit.rlim_cur = r.pick<long>({0, 100, 2880, 4000, 5760, 7000});
      std::signal(SIGXFSZ, SIG_IGN);
      std::fflush(m.out);
      std::string e;
      {
        Descriptors descriptors("fault-descriptors");
        setrlimit(RLIMIT_FSIZE, &limit);
        e = thrown([&] { io.write(bigRaster); });
        setrlimit(RLIMIT_FSIZE, &old);
      }
      m.check(e == "Exception", "full-disk", [&] { return cat("limit ", long(limit.rlim_cur), ": ", e); });
      std::remove(name.c_str());
      io.write(bigRaster);
      inspect(name, big);
      compare(io.read<Raster<T, 2>>(), big, "recovered");
    }
    recover<T>(io, name);
  }
}

#if PART == 0

SCENARIOS(char, char)
SCENARIOS(schar, signed char)
SCENARIOS(uchar, unsigned char)
SCENARIOS(short, short)
SCENARIOS(ushort, unsigned short)
SCENARIOS(int, int)
SCENARIOS(uint, unsigned int)

/// Files of another pixel type
template <typename T, typename U>
void readOther(int image, const std::vector<U>& values, bool ok) {
  auto& m = mon();
  Content<U> content {{long(values.size())}, values};
  m.begin(cat("image type ", image, " read as ", vp::typeName<T>(), " values ", vp::list(values)));
  const auto name = newName();
  m.check(writeAs(name, content, image), "file-writing");
  Fits io(name);
  Descriptors descriptors("read-descriptors");
  if (ok) {
    compare(io.read<Raster<T, 1>>(), content, "other-pixel-type");
    compare(io.read<Raster<T, 3>>(), content, "other-pixel-type");
  } else {
    const auto e = thrown([&] { io.read<Raster<T, 1>>(); });
    m.check(e == "Exception", "values-out-of-range", [&] { return e; });
    const auto again = thrown([&] { io.read<Raster<T, 2>>(); });
    m.check(again == "Exception", "values-out-of-range", [&] { return again; });
    compare(io.read<Raster<U, 1>>(), content, "values-out-of-range-then-read");
  }
  std::remove(name.c_str());
  m.count(ok ? "conversions" : "conversions refused");
}

SCENARIO(other_pixel_types) {
  auto& r = mon().rng;
  for (int k = 0; k < 10 * mon().scale; ++k) {
    std::vector<int> small, bytes, shorts, negatives;
    std::vector<double> doubles;
    for (long i = r.range(1, 40); i >= 0; --i) {
      small.push_back(r.range(0, 127));
      bytes.push_back(r.range(0, 255));
      shorts.push_back(r.range(-32768, 32767));
      negatives.push_back(-r.range(1, 100));
      doubles.push_back(double(r.range(-99999, 99999)));
    }
    for (int image : {BYTE_IMG, SHORT_IMG, LONG_IMG, LONGLONG_IMG, FLOAT_IMG, DOUBLE_IMG}) {
      readOther<char>(image, small, true);
      readOther<unsigned char>(image, bytes, true);
      readOther<short>(image, bytes, true);
      readOther<unsigned short>(image, bytes, true);
      readOther<int>(image, bytes, true);
      readOther<unsigned int>(image, small, true);
      readOther<long>(image, bytes, true);
      readOther<unsigned long>(image, bytes, true);
      readOther<float>(image, bytes, true);
      readOther<double>(image, bytes, true);
    }
    for (int image : {SHORT_IMG, LONG_IMG, LONGLONG_IMG, FLOAT_IMG, DOUBLE_IMG}) {
      readOther<short>(image, shorts, true);
      readOther<int>(image, shorts, true);
      readOther<long>(image, shorts, true);
      readOther<double>(image, shorts, true);
      readOther<unsigned char>(image, negatives, false);
      readOther<unsigned short>(image, negatives, false);
      readOther<unsigned int>(image, negatives, false);
      auto high = small;
      high[r.range(0, high.size() - 1)] = r.range(256, 30000);
      readOther<unsigned char>(image, high, false);
      readOther<char>(image, high, false);
    }
    for (int image : {LONG_IMG, LONGLONG_IMG, DOUBLE_IMG}) {
      auto high = small;
      high[r.range(0, high.size() - 1)] = r.range(70000, 1000000);
      readOther<short>(image, high, false);
      readOther<unsigned short>(image, high, false);
      readOther<int>(image, high, true);
    }
    readOther<int>(DOUBLE_IMG, doubles, true);
    readOther<float>(DOUBLE_IMG, doubles, true);
    doubles[r.range(0, doubles.size() - 1)] = 1e12;
    readOther<int>(DOUBLE_IMG, doubles, false);
    readOther<long>(DOUBLE_IMG, doubles, true);
  }
}

#else

SCENARIOS(long, long)
SCENARIOS(ulong, unsigned long)
SCENARIOS(longlong, long long)
SCENARIOS(ulonglong, unsigned long long)
SCENARIOS(float, float)
SCENARIOS(double, double)

SCENARIO(memory) {
  auto& r = mon().rng;
  for (int k = 0; k < 10 * mon().scale; ++k) {
    const auto name = newName();
    const auto content = randomContent<int>(r, 2);
    mon().begin(cat("memory ", content.shape, k));
    vp::checkNoLeak("no-leak", [&] {
      Fits io(name);
      const auto missing = thrown([&] { io.read<Raster<int, 2>>(); });
      const Raster<int, 2> raster(pos<2>(content.shape), content.values);
      io.write(raster);
      const auto over = thrown([&] { io.write(raster); });
      const auto lower = thrown([&] { io.read<Raster<int, 1>>(); });
      io.read<Raster<int, 2>>();
      io.read<AlignedRaster<int, 3>>();
      mon().check(missing == "Exception" && over == "Exception" && lower == "Exception", "exceptions");
      std::remove(name.c_str());
    });
  }
}

#endif

VP_MAIN
