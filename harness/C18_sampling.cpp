// BUILD: name=run san=asan
// RULE: A case is a sampling (front, back possibly infinite, before front or off the step grid, step), data samples (type, size in an
//   exactly sized block, stride, history of shifts), a box sampling or a segment. The samples enumerated with every iterator form are
//   compared with the indices front, front + step, ... not exceeding back; writes go through the samples and the whole block is
//   compared. Non-trivial: more than one sample. Distinct: by these.
#include "litl.hpp"

#include "LitlRaster/Sampling.h"
#include "LitlTypes/Segment.h"

#include <sys/mman.h>

using namespace Litl;

static std::vector<long> expectedIndices(long front, long back, long step) {
  std::vector<long> out;
  for (long i = front; i <= back; i += step) {
    out.push_back(i);
  }
  return out;
}

/// Enumerate with each kind of increment, never more than limit
template <typename TSampling, typename F>
void enumerate(TSampling& sampling, std::size_t limit, F&& check) {
  using V = std::decay_t<decltype(*sampling.begin())>;
  std::vector<V> pre, post, jump, loop;
  for (auto it = sampling.begin(); it != sampling.end() && pre.size() <= limit; ++it) {
    pre.push_back(*it);
  }
  check(pre, "pre-increment");
  for (auto it = sampling.begin(); not(it == sampling.end()) && post.size() <= limit;) {
    const auto here = *it;
    auto old = it++;
    post.push_back(*old);
    if (*old != here) {
      post.push_back(here);
    }
  }
  check(post, "post-increment");
  for (std::size_t i = 0; i < pre.size(); ++i) {
    auto it = sampling.begin();
    it += i;
    jump.push_back(*it);
    it += pre.size() - i;
    if (it != sampling.end()) {
      jump.push_back(jump.back());
    }
    it -= pre.size() - i;
    if (*it != jump.back()) {
      jump.push_back(*it);
    }
  }
  check(jump, "jumps");
  for (const auto& e : sampling) {
    loop.push_back(e);
    if (loop.size() > limit) {
      break;
    }
  }
  check(loop, "range loop");
}

template <typename T>
void axis() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 2000 * m.scale; ++k) {
    const long front = r.chance(3) ? 0 : r.range(r.chance(2) && std::is_signed<T>::value ? -300 : 0, 300);
    const long step = r.chance(3) ? 1 : vp::sizeBiased(r, 70);
    const long count = r.chance(50) ? vp::sizeLarge(r, 140000) : r.range(0, 40);
    long back = front + (count - 1) * step + (r.chance(2) ? 0 : r.range(0, step - 1));
    if (back < front && (not std::is_signed<T>::value || r.chance(2))) {
      back = std::is_signed<T>::value ? front - r.range(1, 30) : front;
    }
    m.begin(cat("axis ", vp::typeName<T>(), " ", front, ":", back, ":", step), count > 1);
    const auto expected = expectedIndices(front, back, step);
    m.count(expected.empty() ? "empty samplings" : "samplings");
    const AxisSampling<T> sampling {T(front), T(back), T(step)};
    m.check(sampling.size() == expected.size(), "axis-size", [&] { return cat(sampling.size(), " expected ", expected.size()); });
    if (sampling.size() != expected.size()) {
      continue;
    }
    const auto check = [&](const std::vector<T>& seen, const char* how) {
      m.check(std::vector<long>(seen.begin(), seen.end()) == expected, "axis-indices", [&] { return cat(how, ": ", seen, " expected ", expected); });
    };
    enumerate(sampling, expected.size(), check);
    check(sampling.vector(), "vector");
    const auto copy = sampling;
    check(copy.vector(), "copy");
    m.check(copy.front == T(front) && copy.back == T(back) && copy.step == T(step), "axis-fields");
  }
  const AxisSampling<T> byDefault {};
  m.check(byDefault.front == 0 && byDefault.step == 1 && byDefault.back == Limits<T>::inf() && byDefault.back == std::numeric_limits<T>::max(), "axis-default");
}
SCENARIO(axis_indices) { axis<Index>(); }
SCENARIO(axis_ints) { axis<int>(); }
SCENARIO(axis_unsigned) { axis<unsigned long>(); }

/// Samplings which are far from the origin or have large steps
template <typename T>
void farAxis() {
  auto& r = mon().rng;
  auto& m = mon();
  const int bits = std::numeric_limits<T>::digits - 2;
  for (int k = 0; k < 1000 * m.scale; ++k) {
    const long range = 1l << r.range(8, bits);
    const long front = r.range(std::is_signed<T>::value ? -range : 0, range / 2);
    const long count = r.range(1, 30);
    const long step = r.range(1, std::max(1l, range / 2 / count - 1));
    const long back = front + (count - 1) * step + r.range(0, step - 1);
    m.begin(cat("far axis ", vp::typeName<T>(), " ", front, ":", back, ":", step), count > 1);
    const auto expected = expectedIndices(front, back, step);
    const AxisSampling<T> sampling {T(front), T(back), T(step)};
    m.check(sampling.size() == expected.size(), "axis-size", [&] { return cat(sampling.size(), " expected ", expected.size()); });
    if (sampling.size() != expected.size()) {
      continue;
    }
    enumerate(sampling, expected.size(), [&](const std::vector<T>& seen, const char* how) {
      m.check(std::vector<long>(seen.begin(), seen.end()) == expected, "axis-indices", [&] { return cat(how, ": ", seen, " expected ", expected); });
    });
  }
}
/// Samplings which are too large for being enumerated are jumped over
SCENARIO(huge_axis) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 500 * m.scale; ++k) {
    const long count = r.range(1, 1l << r.range(3, 40));
    const long step = r.chance(3) ? 1 : r.range(1, 1l << r.range(1, 20));
    const long front = r.range(-1000000, 1000000);
    const long back = front + (count - 1) * step + r.range(0, step - 1);
    m.begin(cat("huge axis ", front, ":", back, ":", step), count > 1);
    const IndexSampling sampling {front, back, step};
    m.check(long(sampling.size()) == count, "axis-size", [&] { return cat(sampling.size(), " expected ", count); });
    auto it = sampling.begin();
    long i = 0;
    for (int j = 0; j < 6; ++j) {
      const long to = r.range(0, count - 1);
      if (r.chance(2)) {
        it += to - i;
      } else {
        it -= i - to;
      }
      i = to;
      m.check(*it == front + i * step && it != sampling.end(), "axis-jump", [&] { return cat("index ", i, ": ", *it, " expected ", front + i * step); });
    }
    it += count - i;
    m.check(it == sampling.end(), "axis-jump", [] { return "end"; });
    it -= count;
    m.check(it == sampling.begin() && *it == front, "axis-jump", [] { return "begin"; });
  }
}

SCENARIO(far_axis_indices) { farAxis<Index>(); }
SCENARIO(far_axis_ints) { farAxis<int>(); }
SCENARIO(far_axis_unsigned) { farAxis<unsigned long>(); }

SCENARIO(real_axis) { // Steps which are exactly represented
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 500 * m.scale; ++k) {
    const double step = r.pick<double>({.25, .5, 1, 2, 4.});
    const double front = r.range(-100, 100) / 4.;
    const long count = r.range(1, 40);
    const double back = front + (count - 1) * step;
    m.begin(cat("real axis ", front, ":", back, ":", step), count > 1);
    const AxisSampling<double> sampling {front, back, step};
    m.check(long(sampling.size()) == count, "real-axis-size");
    const auto v = sampling.vector();
    bool same = long(v.size()) == count;
    for (long i = 0; same && i < count; ++i) {
      same = v[i] == front + i * step;
    }
    m.check(same, "real-axis-values", [&] { return vp::list(v); });
  }
}

template <typename T>
void data() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 1500 * m.scale; ++k) {
    const long size = vp::sizeUpTo(r, r.pick<long>({2, 20, 130}), 140000, 100);
    const long front = r.chance(3) ? 0 : r.range(0, size - 1);
    const bool infinite = r.chance(3);
    const long back = infinite ? size - 1 : r.chance(15) ? front - 1 : r.range(front, size - 1);
    const long step = r.chance(3) ? 1 : r.range(1, r.pick<long>({3, 20, 200}));
    const long stride = r.chance(3) ? 1 : r.range(1, 9);
    const long lines = r.range(1, 4); // Number of shifted positions
    const long total = (size - 1) * stride + 1 + lines - 1;
    m.begin(cat("data ", vp::typeName<T>(), " size ", size, " sampling ", front, ":", back, infinite ? " infinite" : "", ":", step, " stride ", stride, " lines ", lines, " case ", k), size > 1);
    std::unique_ptr<T[]> block(new T[total]);
    std::vector<T> shadow(total);
    for (long i = 0; i < total; ++i) {
      shadow[i] = block[i] = T(i % 120 + 1);
    }
    IndexSampling sampling {front, infinite ? Limits<Index>::inf() : back, step};
    DataSamples<T> samples(block.get(), size, sampling, stride);
    const auto expected = expectedIndices(front, back, step);
    const auto fields = [&](const auto& s, const char* key) {
      m.check(long(s.size()) == size && s.count() == expected.size(), key, [&] { return cat("size ", s.size(), " count ", s.count()); });
      m.check(s.front() == front && s.back() == back && s.step() == step && s.stride() == stride, key);
      m.check(s.sampling().front == front && s.sampling().back == back && s.sampling().step == step, key);
    };
    fields(samples, "data-fields");
    if (samples.count() != expected.size()) {
      continue;
    }
    long offset = 0;
    for (int turn = 0; turn < 5; ++turn) {
      m.check(samples.data() == block.get() + offset, "data-pointer", [&] { return cat("offset ", samples.data() - block.get(), " expected ", offset); });
      std::vector<T> values;
      for (auto i : expected) {
        values.push_back(shadow[offset + i * stride]);
      }
      const auto check = [&](const auto& seen, const char* how) {
        m.check(std::vector<T>(seen.begin(), seen.end()) == values, "data-values", [&] { return cat(how, ": ", vp::list(seen), " expected ", vp::list(values)); });
      };
      const auto& csamples = samples;
      enumerate(samples, expected.size(), check);
      enumerate(csamples, expected.size(), check);
      check(samples.vector(), "vector");
      const DataSamples<const T> constant(block.get() + offset, size, sampling, stride);
      fields(constant, "const-data-fields");
      std::vector<T> fromConst;
      for (const auto& e : constant) {
        fromConst.push_back(e);
      }
      check(fromConst, "constant data");
      // Address of each sample
      std::size_t n = 0;
      for (auto it = samples.begin(); it != samples.end() && n < expected.size(); ++it, ++n) {
        m.check(&*it == block.get() + offset + expected[n] * stride && it.operator->() == &*it, "data-address", [&] {
          return cat("sample ", n, " at ", &*it - block.get(), " expected ", offset + expected[n] * stride);
        });
      }
      // Write through the samples
      n = 0;
      for (auto& e : samples) {
        if (n < expected.size()) {
          shadow[offset + expected[n] * stride] = T(n % 90 + 3 + turn);
        }
        e = T(n++ % 90 + 3 + turn);
      }
      m.check(std::equal(shadow.begin(), shadow.end(), block.get()), "data-written");
      // Shift
      const long to = r.range(0, lines - 1);
      switch (to == offset + 1 ? r.range(0, 2) : to < offset ? 4 : 3) {
        case 0: {
          auto& self = ++samples;
          m.check(&self == &samples, "shift");
          break;
        }
        case 1: {
          auto old = samples++;
          m.check(old.data() == block.get() + offset, "post-shift", [&] { return cat("old offset ", old.data() - block.get()); });
          fields(old, "post-shift");
          break;
        }
        case 4: {
          auto& self = samples -= offset - to;
          m.check(&self == &samples, "shift");
          break;
        }
        default: {
          auto& self = samples += to - offset;
          m.check(&self == &samples, "shift");
        }
      }
      offset = to;
      fields(samples, "shifted-fields");
      m.count("shifts");
    }
    // Default sampling and stride
    const DataSamples<T> byDefault(block.get(), total);
    m.check(byDefault.front() == 0 && byDefault.back() == total - 1 && byDefault.step() == 1 && byDefault.stride() == 1, "data-default");
    m.check(byDefault.vector() == shadow, "data-default");
  }
}
SCENARIO(data_bytes) { data<unsigned char>(); }
SCENARIO(data_ints) { data<int>(); }
SCENARIO(data_doubles) { data<double>(); }

/// Samples of data which are larger than memory: only the samples are touched
template <typename T>
void farData() {
  auto& r = mon().rng;
  auto& m = mon();
  const long length = (1l << 34) / long(sizeof(T));
  const long bytes = length * long(sizeof(T));
  void* const map = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (map == MAP_FAILED) {
    m.count("no address space");
    return;
  }
  T* const block = static_cast<T*>(map);
  for (int k = 0; k < 40 * m.scale; ++k) {
    const long stride = r.chance(3) ? 1 : r.range(1, 1l << r.range(1, 26));
    const long size = (length - 8) / stride;
    const long front = r.range(0, size - 1);
    const long last = r.range(front, size - 1);
    const bool infinite = r.chance(3);
    const long back = infinite ? size - 1 : last;
    const long count = r.range(1, 20);
    const long step = std::max(1l, (back - front) / count);
    m.begin(cat("far data ", vp::typeName<T>(), " size ", size, " sampling ", front, ":", back, ":", step, " stride ", stride));
    const auto expected = expectedIndices(front, back, step);
    if (expected.size() > 1000) { // Small range
      continue;
    }
    m.count("far samples", expected.size());
    DataSamples<T> samples(block, size, {front, infinite ? Limits<Index>::inf() : back, step}, stride);
    m.check(samples.count() == expected.size(), "data-fields", [&] { return cat(samples.count(), " expected ", expected.size()); });
    if (samples.count() != expected.size()) {
      continue;
    }
    const long shift = r.range(0, 7);
    samples += shift;
    std::size_t i = 0;
    bool same = true;
    for (auto it = samples.begin(); it != samples.end() && i < expected.size(); ++it, ++i) {
      same &= &*it == block + shift + expected[i] * stride;
    }
    for (i = 0; i < expected.size() && same; ++i) {
      auto it = samples.begin();
      it += i;
      same &= &*it == block + shift + expected[i] * stride;
      it += expected.size() - i;
      same &= it == samples.end();
      it -= expected.size() - i;
      same &= &*it == block + shift + expected[i] * stride;
    }
    m.check(same, "data-address", [&] { return cat("sample ", i); });
    if (not same) {
      continue;
    }
    i = 0;
    for (auto& e : samples) {
      e = T(++i % 100 + 1);
    }
    for (i = 0; i < expected.size(); ++i) {
      same &= block[shift + expected[i] * stride] == T((i + 1) % 100 + 1);
    }
    m.check(same, "data-written");
    samples -= shift;
    m.check(samples.data() == block, "data-pointer");
    madvise(map, bytes, MADV_DONTNEED);
    // Jumps of many samples at once, and shifts of the data
    DataSamples<T> all(block, size, {front, infinite ? Limits<Index>::inf() : back, 1 + r.range(0, 2)}, stride);
    const long total = (back - front) / all.step() + 1;
    m.check(long(all.count()) == total, "data-fields", [&] { return cat(all.count(), " expected ", total); });
    auto it = all.begin();
    long at = 0;
    for (int j = 0; j < 6; ++j) {
      const long to = r.range(0, total - 1);
      if (r.chance(2)) {
        it += to - at;
      } else {
        it -= at - to;
      }
      at = to;
      m.check(&*it == block + (front + at * all.step()) * stride, "data-jump", [&] { return cat("sample ", at, ": ", &*it - block); });
    }
    it += total - at;
    m.check(it == all.end(), "data-jump", [] { return "end"; });
    const long far = r.range(0, length - 1), near = r.range(0, far);
    all += far;
    all -= far - near;
    m.check(all.data() == block + near, "data-pointer", [&] { return cat("shifted by ", all.data() - block, " expected ", near); });
  }
  munmap(map, bytes);
}
SCENARIO(far_data_bytes) { farData<unsigned char>(); }
SCENARIO(far_data_doubles) { farData<double>(); }

template <Index N>
void box() {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 300 * m.scale; ++k) {
    const int dim = vp::dimOf(N, r, 6);
    Vec lo(dim), hi(dim), step(dim), count(dim);
    for (int i = 0; i < dim; ++i) {
      lo[i] = r.range(-20, 20);
      hi[i] = lo[i] + r.range(r.chance(10) ? -3 : 0, 30);
      step[i] = r.chance(3) ? 1 : r.range(1, 12);
      count[i] = expectedIndices(lo[i], hi[i], step[i]).size();
    }
    m.begin(cat("box ", N, " ", lo, hi, step), dim > 1);
    const auto region = vp::box<N>(lo, hi);
    const PositionSampling<N> sampling(region, pos<N>(step));
    m.check(toVec(sampling.shape()) == count, "box-shape", [&] { return cat(toVec(sampling.shape()), " expected ", count); });
    for (int i = 0; i < dim; ++i) {
      const auto& s = sampling.along(i);
      const auto v = s.vector();
      m.check(Vec(v.begin(), v.end()) == expectedIndices(lo[i], hi[i], step[i]), "box-along", [&] { return cat("axis ", i, ": ", vp::list(v)); });
    }
    const auto check = [&](const IndexSampling& s, int i) {
      m.check(&s == &sampling.along(i) && s.front == lo[i] && s.back == hi[i] && s.step == step[i], "box-along-static");
    };
    check(sampling.template along<0>(), 0);
    if (dim > 1) {
      check(sampling.template along<1>(), 1);
    }
    if (dim > 2) {
      check(sampling.template along<2>(), 2);
    }
    if (N != -1) { // Default step
      const PositionSampling<N> unit(region);
      Vec shape(dim);
      for (int i = 0; i < dim; ++i) {
        shape[i] = std::max(0l, hi[i] - lo[i] + 1);
      }
      m.check(toVec(unit.shape()) == shape, "box-default-step");
    }
  }
}
SCENARIO(box_1) { box<1>(); }
SCENARIO(box_2) { box<2>(); }
SCENARIO(box_3) { box<3>(); }
SCENARIO(box_4) { box<4>(); }
SCENARIO(box_dynamic) { box<-1>(); }

SCENARIO(segments) {
  auto& r = mon().rng;
  auto& m = mon();
  for (int k = 0; k < 2000 * m.scale; ++k) {
    const long range = 1l << r.range(0, 40);
    const long front = r.range(-range, range);
    const long size = r.range(0, range);
    m.begin(cat("segment from ", front, " size ", size), size > 1);
    const auto s = Segment::fromSize(front, size);
    m.check(s.front() == front && s.back() == front + size - 1 && long(s.size()) == size, "segment-from-size", [&] { return cat(s.front(), ":", s.back()); });
    const Segment t(front, front + size);
    m.check(t.front() == front && t.back() == front + size && long(t.size()) == size + 1, "segment");
    const auto copy = t;
    m.check(copy.front() == front && copy.back() == front + size, "segment-copy");
  }
}

VP_MAIN
