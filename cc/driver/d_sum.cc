#include "algorithms/bounded-sum.h"

#include "approx.h"
namespace sim {
namespace {
template <typename T>
Made Make(const Args& a) {
  typename dp::BoundedSum<T>::Builder b;
  Common(b, a);
  Bounds<T>(b, a);
  absl::Status s = MaybeApprox<T>(b, a);
  if (!s.ok()) return s;
  return Wrap<T>(b.Build());
}
}  // namespace
Made NewSum(const Args& a, const std::string& t) { BY_TYPE(t, Make, a); }
}  // namespace sim
