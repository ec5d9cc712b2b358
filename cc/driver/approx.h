#include "algorithms/approx-bounds.h"
#include "common.h"
namespace sim {
template <typename T>
void ApproxParams(typename dp::ApproxBounds<T>::Builder& b, const Args& a) {
  if (a.has("ab_bins")) b.SetNumBins(a.i("ab_bins"));
  if (a.has("ab_scale")) b.SetScale(a.d("ab_scale"));
  if (a.has("ab_base")) b.SetBase(a.d("ab_base"));
  if (a.has("ab_success")) b.SetSuccessProbability(a.d("ab_success"));
  if (a.has("ab_threshold")) b.SetThresholdForTest(a.d("ab_threshold"));
}
// A bounds algorithm supplied by the caller, with its own epsilon.
template <typename T>
absl::StatusOr<std::unique_ptr<dp::ApproxBounds<T>>> OwnApprox(const Args& a) {
  typename dp::ApproxBounds<T>::Builder b;
  b.SetEpsilon(a.d("ab_eps"));
  b.SetMaxPartitionsContributed(a.i("l0", 1));
  b.SetMaxContributionsPerPartition(a.i("linf", 1));
  b.SetLaplaceMechanism(MechBuilder(a));
  ApproxParams<T>(b, a);
  return b.Build();
}
template <typename T, typename B>
absl::Status MaybeApprox(B& b, const Args& a) {
  if (!a.has("ab_eps")) return absl::OkStatus();
  auto ab = OwnApprox<T>(a);
  if (!ab.ok()) return ab.status();
  b.SetApproxBounds(std::move(ab.value()));
  return absl::OkStatus();
}
}  // namespace sim
