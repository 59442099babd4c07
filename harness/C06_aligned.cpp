// BUILD: name=run san=asan
// RULE: A case is a random history of constructions (owned or wrapped, every alignment), copies, moves, assignments,
//   self-assignments, writes, releases, resets and destructions on a pool of aligned buffers or rasters, mirrored by a model of
//   who owns what. After each step every live object is compared with the model (address, alignment, ownership, content);
//   after each history the allocated bytes must be those of the beginning. Non-trivial: every history. Distinct: by seed and type.
#include "litl.hpp"

#include "LitlContainer/AlignedBuffer.h"

using Litl::AlignedBuffer;
using Litl::AlignedRaster;

static bool powerOfTwo(std::size_t n) {
  return n > 0 && (n & (n - 1)) == 0;
}

/// Distance to the required alignment, not computed by the library
static bool aligned(const void* p, std::size_t as) {
  return (std::uintptr_t(p) & (as - 1)) == 0;
}

static const std::vector<std::size_t> alignments {0, 0, std::size_t(-1), 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096};

/// Memory owned by the harness
template <typename T>
struct External {
  std::vector<char> bytes;
  T* data;
  std::vector<T> values;
};

template <typename T>
struct Object {
  enum State { Gone, Empty, Owner, Sharer };
  State state = Gone;
  alignas(AlignedBuffer<T>) char storage[sizeof(AlignedBuffer<T>)];
  std::size_t size = 0;
  std::vector<T> values; ///< If owner
  std::size_t align = 0; ///< As requested, 0 if unknown
  T* shared = nullptr; ///< If sharer

  AlignedBuffer<T>& buffer() {
    return *reinterpret_cast<AlignedBuffer<T>*>(storage);
  }
};

/// Who owns what
template <typename T>
struct Model {
  using Obj = Object<T>;
  std::vector<std::unique_ptr<Obj>> pool;
  std::map<T*, std::vector<T>> blocks; ///< Live memory which is shared: its current content
  std::vector<std::unique_ptr<char[]>> externals;
  std::vector<void*> released;
  vp::Rng& r;
  bool log;

  Model(vp::Rng& rng, int n, bool l) : r(rng), log(l) {
    for (int i = 0; i < n; ++i) {
      pool.push_back(std::make_unique<Obj>());
    }
  }

  ~Model() {
    for (auto& o : pool) {
      destroy(*o);
    }
    for (auto* p : released) {
      std::free(p);
    }
  }

  void destroy(Obj& o) {
    if (o.state != Obj::Gone) {
      orphan(o);
      o.buffer().~AlignedBuffer<T>();
      o.state = Obj::Gone;
      o.values.clear();
    }
  }

  /// An owner is about to free its memory: the sharers are not to be read any more
  void orphan(Obj& o) {
    if (o.state != Obj::Owner) {
      return;
    }
    auto* p = const_cast<T*>(o.buffer().data());
    for (auto& s : pool) {
      if (s->state == Obj::Sharer && s->shared == p && o.size > 0) {
        s->buffer().~AlignedBuffer<T>();
        s->state = Obj::Gone;
      }
    }
  }

  T value() {
    return vp::smallValue<T>(r, 1, 100);
  }

  void fillOwner(Obj& o) {
    o.values.resize(o.size);
    auto* p = const_cast<T*>(o.buffer().data());
    for (std::size_t i = 0; i < o.size; ++i) {
      p[i] = o.values[i] = value();
    }
  }

  std::size_t anySize() {
    return r.chance(12) ? 0 : vp::sizeBiased(r, 300);
  }

  void construct(Obj& o) {
    destroy(o);
    o.size = anySize();
    o.align = r.pick(alignments);
    if (r.chance(2)) {
      if (o.align == 0 && r.chance(2)) { // Default arguments
        new (o.storage) AlignedBuffer<T>(o.size);
      } else {
        new (o.storage) AlignedBuffer<T>(o.size, nullptr, o.align);
      }
      o.state = Obj::Owner;
      fillOwner(o);
      return;
    }
    wrap(o);
  }

  /// Wrap memory of the harness, aligned or not
  void wrap(Obj& o) {
    const std::size_t as = o.align == 0 ? 1 : o.align == std::size_t(-1) ? 64 : o.align;
    externals.emplace_back(new char[o.size * sizeof(T) + 8192]);
    const auto base = (std::uintptr_t(externals.back().get()) + 4095) / 4096 * 4096;
    const std::size_t room = 4096 / sizeof(T);
    auto* p = reinterpret_cast<T*>(base) + (r.chance(3) ? 0 : r.chance(2) ? 64 / sizeof(T) : r.range(0, room - 1));
    const bool ok = aligned(p, as);
    std::string what;
    try {
      if (o.align == 0 && r.chance(2)) { // Default argument
        new (o.storage) AlignedBuffer<T>(o.size, p);
      } else {
        new (o.storage) AlignedBuffer<T>(o.size, p, o.align);
      }
      what = "none";
    } catch (const Litl::AlignmentError&) {
      what = "AlignmentError";
    } catch (...) {
      what = "other";
    }
    mon().check(what == (ok ? "none" : "AlignmentError"), "wrap-alignment", [&] {
      return cat("wrapping ", std::uintptr_t(p) % 4096, "+4096k with alignment ", o.align, ": ", what);
    });
    mon().count(ok ? "wrapped" : "refused");
    if (what == "none") {
      o.state = Obj::Sharer;
      o.shared = p;
      auto& v = blocks[p];
      v.resize(o.size);
      for (std::size_t i = 0; i < o.size; ++i) {
        p[i] = v[i] = value();
      }
    }
  }

  /// The content of `to` becomes that of `from` (deep for owners)
  void copyState(Obj& to, const Obj& from) {
    to.state = from.state;
    to.size = from.size;
    to.values = from.values;
    to.align = from.align;
    to.shared = from.shared;
  }

  void emptied(Obj& o, const char* key) {
    auto& b = o.buffer();
    mon().check(b.size() == 0 && b.data() == nullptr && not b.owns(), key, [&] {
      return cat("size ", b.size(), " data ", b.data() ? "not null" : "null", " owns ", b.owns());
    });
    o.state = Obj::Empty;
    o.size = 0;
    o.values.clear();
    o.shared = nullptr;
  }

  void step() {
    auto& m = mon();
    auto& a = *pool[r.range(0, pool.size() - 1)];
    auto& b = *pool[r.range(0, pool.size() - 1)];
    const auto action = r.range(0, 10);
    switch (action) {
      case 0:
      case 1:
        construct(a);
        m.count("constructed");
        break;
      case 2:
        if (b.state != Obj::Gone && b.state != Obj::Empty && &a != &b) {
          destroy(a);
          if (b.state == Obj::Gone) {
            break; // Was orphaned
          }
          new (a.storage) AlignedBuffer<T>(b.buffer());
          copyState(a, b);
          m.count("copied");
        }
        break;
      case 3:
        if (b.state != Obj::Gone && &a != &b) {
          destroy(a);
          if (b.state == Obj::Gone) {
            break;
          }
          const auto* p = b.buffer().data();
          new (a.storage) AlignedBuffer<T>(std::move(b.buffer()));
          copyState(a, b);
          m.check(a.buffer().data() == p, "move-keeps-address");
          emptied(b, "moved-from-empty");
          m.count("moved");
        }
        break;
      case 4:
        if (a.state != Obj::Gone && b.state != Obj::Gone && b.state != Obj::Empty && &a != &b) {
          const bool inPlace = a.state == Obj::Owner && b.state == Obj::Owner && a.size == b.size;
          if (not(b.state == Obj::Sharer && a.state == Obj::Owner && b.shared == a.buffer().data())) {
            orphan(a);
            if (b.state == Obj::Gone) {
              break;
            }
            auto& out = (a.buffer() = b.buffer());
            m.check(&out == &a.buffer(), "assignment-returns-this");
            copyState(a, b);
            m.count(inPlace ? "assigned in place" : "assigned");
          }
        }
        break;
      case 5:
        if (a.state != Obj::Gone && b.state != Obj::Gone && &a != &b) {
          if (not(b.state == Obj::Sharer && a.state == Obj::Owner && b.shared == a.buffer().data())) {
            orphan(a);
            if (b.state == Obj::Gone) {
              break;
            }
            const auto* p = b.buffer().data();
            a.buffer() = std::move(b.buffer());
            copyState(a, b);
            m.check(a.buffer().data() == p, "move-keeps-address");
            emptied(b, "moved-from-empty");
            m.count("move-assigned");
          }
        }
        break;
      case 6:
        if (a.state != Obj::Gone) {
          auto& alias = a.buffer();
          if (r.chance(2)) {
            a.buffer() = alias;
          } else {
            a.buffer() = std::move(alias);
          }
          m.count("self-assigned");
        }
        break;
      case 7:
        if (a.state == Obj::Owner) {
          auto* p = const_cast<T*>(a.buffer().data());
          auto* container = a.buffer().release();
          m.check(container != nullptr && not a.buffer().owns(), "release");
          m.check(a.buffer().data() == p && a.buffer().size() == a.size, "release-keeps-data");
          m.check(static_cast<char*>(container) <= reinterpret_cast<char*>(p), "release");
          released.push_back(container);
          if (a.size) {
            blocks[p] = a.values;
          }
          a.state = Obj::Sharer;
          a.shared = p;
          m.count("released");
        } else if (a.state == Obj::Sharer) {
          m.check(a.buffer().release() == nullptr, "release-non-owning");
        }
        break;
      case 8:
        if (a.state != Obj::Gone) {
          orphan(a);
          a.buffer().reset();
          emptied(a, "reset-empty");
          m.count("reset");
        }
        break;
      case 9:
        destroy(a);
        m.count("destroyed");
        break;
      default:
        if (a.size > 0 && (a.state == Obj::Owner || a.state == Obj::Sharer)) {
          auto* p = const_cast<T*>(a.buffer().data());
          const auto k = r.range(0, a.size - 1);
          p[k] = value();
          (a.state == Obj::Owner ? a.values : blocks[p])[k] = p[k];
          m.count("written");
        }
    }
  }

  void examine() {
    auto& m = mon();
    std::set<const T*> owned;
    for (auto& object : pool) {
      auto& o = *object;
      if (o.state == Obj::Gone) {
        continue;
      }
      auto& b = o.buffer();
      m.check(b.owns() == (o.state == Obj::Owner), "owns");
      m.check(b.size() == o.size, "size", [&] { return cat("size ", b.size(), " expected ", o.size); });
      if (o.state == Obj::Empty || b.size() != o.size) {
        continue;
      }
      m.check(powerOfTwo(b.alignmentReq()), "alignment-requirement");
      m.check(aligned(b.data(), b.alignmentReq()), "aligned", [&] { return cat(std::uintptr_t(b.data()) % 4096, " for ", b.alignmentReq()); });
      if (o.align != 0 && o.align != std::size_t(-1)) {
        m.check(b.alignmentReq() == o.align, "alignment-requirement", [&] { return cat(b.alignmentReq(), " asked ", o.align); });
        m.check(aligned(b.data(), o.align), "aligned", [&] { return cat(std::uintptr_t(b.data()) % 4096, " for ", o.align); });
      } else if (o.state == Obj::Owner) {
        m.check(aligned(b.data(), 16) && b.alignmentReq() >= 16, "simd-aligned", [&] { return cat(b.alignmentReq()); });
      }
      m.check(powerOfTwo(b.alignment()) && aligned(b.data(), b.alignment()) && not aligned(b.data(), 2 * b.alignment()), "alignment");
      if (o.state == Obj::Owner) {
        m.check(o.size == 0 || owned.insert(b.data()).second, "owned-once");
        m.check(std::equal(o.values.begin(), o.values.end(), b.data()), "content-owner");
      } else {
        m.check(b.data() == o.shared, "shares-data");
        if (o.size) {
          const auto& v = blocks[o.shared];
          m.check(v.size() == o.size && std::equal(v.begin(), v.end(), b.data()), "content-shared");
        }
      }
    }
  }
};

template <typename T>
void histories(int cases) {
  auto& r = mon().rng;
  for (int k = 0; k < cases * mon().scale; ++k) {
    const auto seed = r.next();
    const int steps = r.range(3, 40);
    mon().begin(cat("AlignedBuffer<", vp::typeName<T>(), "> history of ", steps, " steps, seed ", seed));
    vp::checkNoLeak("buffer-leak", [&] {
      vp::Rng local(seed);
      Model<T> model(local, 5, false);
      for (int i = 0; i < steps; ++i) {
        model.step();
        model.examine();
      }
    });
  }
}

template <typename T, Index N>
void rasters(int cases) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < cases * m.scale; ++k) {
    const auto shape = vp::shapeBiased(r, N == -1 ? r.range(1, 4) : N, 200);
    const long n = vp::product(shape);
    const auto p = pos<N>(shape);
    const auto as = r.pick(alignments);
    const std::size_t required = as == 0 || as == std::size_t(-1) ? 16 : as;
    const auto v = vp::smallValues<T>(r, n, 1, 99);
    const auto seed = r.next();
    m.begin(cat("AlignedRaster<", vp::typeName<T>(), ",", N, "> shape=", shape, " align ", long(as), " seed ", seed));
    vp::checkNoLeak("raster-leak", [&] {
      vp::Rng local(seed);
      const AlignedRaster<T, N> plain(p), filled(p, v);
      m.check(plain.owns() && filled.owns() && aligned(plain.data(), 16) && aligned(filled.data(), 16) && plain.alignmentReq() >= 16 && filled.alignmentReq() >= 16, "raster-default-aligned", [&] { return cat(plain.alignmentReq(), " ", filled.alignmentReq()); });
      AlignedRaster<T, N> a(p, nullptr, as);
      m.check(a.owns() && aligned(a.data(), required), "raster-aligned");
      std::copy(v.begin(), v.end(), a.begin());
      auto b = a;
      m.check(b.owns() && aligned(b.data(), required) && b.data() != a.data() && b == a, "raster-copy-aligned");
      b[local.range(0, n - 1)] += T(1);
      m.check(std::equal(v.begin(), v.end(), a.begin()) && b != a, "raster-copy-independent");
      AlignedRaster<T, N> c(p, v, nullptr, as);
      m.check(c.owns() && aligned(c.data(), required) && c == a, "raster-iterable-aligned");
      const auto* address = c.data();
      auto d = std::move(c);
      m.check(d.owns() && d.data() == address && d == a, "raster-moved");
      d = b;
      m.check(d.owns() && d.data() != b.data() && d == b && aligned(d.data(), required), "raster-assigned");
      auto e = a + T(1);
      m.check(aligned(e.data(), required) && e.owns() && e.data() != a.data(), "raster-arithmetic-aligned");
      auto& alias = d;
      d = alias;
      m.check(d == b && d.owns(), "raster-self-assigned");
      b = std::move(d);
      m.check(b.owns() && b.size() == std::size_t(n), "raster-move-assigned");
      // Wrapping
      std::unique_ptr<char[]> bytes(new char[n * sizeof(T) + 8192]);
      auto* w = reinterpret_cast<T*>((std::uintptr_t(bytes.get()) + 4095) / 4096 * 4096) + local.range(0, 64);
      std::copy(v.begin(), v.end(), w);
      const std::size_t wrapRequired = as == 0 ? 1 : as == std::size_t(-1) ? 64 : as;
      const bool ok = aligned(w, wrapRequired);
      const auto thrown = vp::thrown([&] {
        AlignedRaster<T, N> view(p, w, as);
        m.check(not view.owns() && view.data() == w && view == a, "raster-wraps");
        auto copy = view;
        m.check(not copy.owns() && copy.data() == w, "raster-wrap-copy-shares");
        auto moved = std::move(copy);
        m.check(not moved.owns() && moved.data() == w, "raster-wrap-move");
        AlignedRaster<T, N> assigned(p);
        assigned = view;
        m.check(not assigned.owns() && assigned.data() == w, "raster-wrap-assign");
        assigned.front() = T(7);
        m.check(w[0] == T(7) && view.front() == T(7), "raster-wrap-writes");
        assigned = a; // Was not owning: becomes a deep copy, and the wrapped data are left alone
        m.check(assigned.owns() && assigned.data() != w && assigned.data() != a.data() && assigned == a && w[0] == T(7), "raster-wrap-reassigned");
      });
      m.check(thrown == (ok ? "none" : "AlignmentError"), "raster-wrap-alignment", [&] { return thrown; });
      m.check(std::equal(v.begin() + 1, v.end(), w + 1), "raster-wrapped-data-kept");
    });
  }
}

/// Wrong constructions must not leak either
SCENARIO(failures) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 150 * m.scale; ++k) {
    const long n = r.range(1, 300);
    const auto v = vp::smallValues<int>(r, n, 1, 99);
    const long wrong = n + (r.chance(2) && n > 1 ? -1 : r.range(1, 9));
    m.begin(cat("AlignedRaster of ", wrong, " elements from ", n));
    vp::checkNoLeak("failure-leak", [&] {
      m.check(vp::thrown([&] { AlignedRaster<int, 1> a({wrong}, v); }) != "none", "size-mismatch");
      m.check(vp::thrown([&] { AlignedRaster<int, 1> a({wrong}, v, nullptr, 128); }) != "none", "size-mismatch");
      AlignedRaster<int, 1> a({n}, v);
      m.check(vp::thrown([&] { a.at(n); }) != "none", "at");
    });
  }
}

/// Memory which cannot be allocated is not pretended to be
template <typename T>
void exhaustion() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 60 * m.scale; ++k) {
    // More than the address space, and sizes in bytes which overflow
    const bool overflows = r.chance(2);
    const std::size_t bytes = overflows ? 0 : (1ul << r.range(48, 58)) + r.range(0, 1000);
    const std::size_t size = overflows ? std::size_t(-1) / sizeof(T) - r.range(0, 3) + (sizeof(T) > 1 ? r.range(0, 9) : 0) : bytes / sizeof(T) + 1;
    const std::size_t align = overflows && sizeof(T) == 1 ? 64 : r.pick(alignments);
    m.begin(cat("size ", size, " alignment ", align), true);
    const auto create = [&] {
      AlignedBuffer<T> b(size, nullptr, align);
      m.check(false, "exhaustion", [&] { return cat("size ", b.size(), " data ", (void*)b.data()); });
    };
    m.check(vp::thrown(create) != "none", "exhaustion");
    // The process and the other buffers are not harmed
    std::vector<T> values(10, T(3));
    AlignedRaster<T, 1> raster({10}, values);
    m.check(vp::thrown([&] { raster = AlignedRaster<T, 1>({Index(bytes ? size : 1ul << 58)}); }) != "none", "exhaustion-raster");
    m.check(raster.size() == 10 && std::equal(values.begin(), values.end(), raster.begin()), "exhaustion-other");
    m.count("impossible allocations");
  }
}
SCENARIO(exhaustion_chars) { exhaustion<char>(); }
SCENARIO(exhaustion_doubles) { exhaustion<double>(); }
SCENARIO(exhaustion_complexes) { exhaustion<std::complex<double>>(); }

SCENARIO(functions) {
  auto& r = mon().rng;
  auto& m = mon();
  std::vector<char> bytes(1 << 16);
  const auto base = (std::uintptr_t(bytes.data()) + 32767) / 32768 * 32768;
  for (int k = 0; k < 3000 * m.scale; ++k) {
    const std::uintptr_t offset = r.chance(2) ? r.range(1, 32000) : (1l << r.range(0, 14));
    const auto* p = reinterpret_cast<const char*>(base + offset);
    m.begin(cat("offset ", long(offset)));
    const auto expected = offset & (~offset + 1);
    m.check(Litl::alignment(p) == expected, "free-alignment", [&] { return cat(Litl::alignment(p), " expected ", expected); });
    for (std::size_t as = 1; as <= 16384; as *= 2) {
      m.check(Litl::isAligned(p, as) == (offset % as == 0), "free-is-aligned", [&] { return cat(as); });
      const auto thrown = vp::thrown([&] { Litl::AlignmentError::mayThrow(p, as); });
      m.check(thrown == (offset % as == 0 ? "none" : "AlignmentError"), "may-throw", [&] { return cat(as, thrown); });
    }
  }
  m.check(vp::thrown([] { Litl::isAligned(static_cast<int*>(nullptr), 16); }) == "NullPtrError", "null-pointer");
  m.check(vp::thrown([] { Litl::alignment(static_cast<int*>(nullptr)); }) == "NullPtrError", "null-pointer");
}

SCENARIO(char_buffers) { histories<char>(900); }
SCENARIO(int_buffers) { histories<int>(900); }
SCENARIO(double_buffers) { histories<double>(900); }
SCENARIO(complex_buffers) { histories<std::complex<double>>(900); }
SCENARIO(int_rasters_1d) { rasters<int, 1>(1000); }
SCENARIO(double_rasters_2d) { rasters<double, 2>(1000); }
SCENARIO(byte_rasters_3d) { rasters<unsigned char, 3>(1000); }
SCENARIO(float_rasters_dynamic) { rasters<float, -1>(1000); }

VP_MAIN
