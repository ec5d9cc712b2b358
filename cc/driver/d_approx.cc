#include "approx.h"
namespace sim {
namespace {
template <typename T>
Made Make(const Args& a) {
  typename dp::ApproxBounds<T>::Builder b;
  Common(b, a);
  ApproxParams<T>(b, a);
  return Wrap<T>(b.Build());
}
}  // namespace
Made NewApprox(const Args& a, const std::string& t) { BY_TYPE(t, Make, a); }
}  // namespace sim
