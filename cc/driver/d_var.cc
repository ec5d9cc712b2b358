#include "algorithms/bounded-standard-deviation.h"
#include "algorithms/bounded-variance.h"

#include "approx.h"
namespace sim {
namespace {
template <typename T, typename B>
Made Finish(B& b, const Args& a) {
  Common(b, a);
  Bounds<T>(b, a);
  absl::Status s = MaybeApprox<T>(b, a);
  if (!s.ok()) return s;
  return Wrap<T>(b.Build());
}
template <typename T>
Made Make(const Args& a) {
  if (a.pos.at(1) == "std") {
    typename dp::BoundedStandardDeviation<T>::Builder b;
    return Finish<T>(b, a);
  }
  typename dp::BoundedVariance<T>::Builder b;
  return Finish<T>(b, a);
}
}  // namespace
Made NewVariance(const Args& a, const std::string& t) { BY_TYPE(t, Make, a); }
}  // namespace sim
