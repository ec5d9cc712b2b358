#include "absl/log/check.h"
#ifndef ABSL_DIE_IF_NULL
#include <utility>
namespace verif_log {
template <typename T> T die_if_null(T&& t) {
  CHECK(t != nullptr);
  return std::forward<T>(t);
}
}  // namespace verif_log
#define ABSL_DIE_IF_NULL(v) ::verif_log::die_if_null(v)
#endif
