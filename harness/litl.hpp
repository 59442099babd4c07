/// Conversions between library types and the plain vectors of the reference models.
#ifndef VP_LITL_HPP
#define VP_LITL_HPP

#include "monitor.hpp"

#include "LitlRaster/Raster.h"

using Litl::Index;

namespace vp {

using Vec = std::vector<long>;

template <Index N, typename T = Index>
Litl::Vector<T, N> vec(const std::vector<T>& v) {
  Litl::Vector<T, N> out(T(v.size()));
  std::copy(v.begin(), v.end(), out.begin());
  return out;
}
template <Index N>
Litl::Position<N> pos(const Vec& v) {
  return vec<N, Index>(v);
}
template <typename T, Index N>
std::vector<T> toVec(const Litl::Vector<T, N>& v) {
  return std::vector<T>(v.begin(), v.end());
}
template <Index N>
Litl::Box<N> box(const Vec& lo, const Vec& hi) {
  return Litl::Box<N>(pos<N>(lo), pos<N>(hi));
}

/// Name of the exception thrown by a function, or "none"
template <typename F>
std::string thrown(F&& f) {
  try {
    f();
  } catch (const Litl::OutOfBoundsError&) {
    return "OutOfBoundsError";
  } catch (const Litl::SizeError&) {
    return "SizeError";
  } catch (const Litl::NullPtrError&) {
    return "NullPtrError";
  } catch (const Litl::AlignmentError&) {
    return "AlignmentError";
  } catch (const Litl::Exception&) {
    return "Exception";
  } catch (const std::exception& e) {
    return "std::exception";
  } catch (...) {
    return "unknown";
  }
  return "none";
}

/// Run-time dimension of a compile-time one
inline int dimOf(Index n, Rng& r, int maxDynamic = 4) {
  return n == -1 ? int(r.range(1, maxDynamic)) : int(n);
}

} // namespace vp

using vp::Vec;
using vp::list;
using vp::pos;
using vp::toVec;
using vp::vec;

#endif
