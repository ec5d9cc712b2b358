#include "algorithms/count.h"

#include "common.h"
namespace sim {
namespace {
template <typename T>
Made Make(const Args& a) {
  typename dp::Count<T>::Builder b;
  Common(b, a);
  return Wrap<T>(b.Build());
}
}  // namespace
Made NewCount(const Args& a, const std::string& t) { BY_TYPE(t, Make, a); }
}  // namespace sim
