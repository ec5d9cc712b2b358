#include "algorithms/order-statistics.h"

#include "common.h"
namespace sim {
namespace {
// Order statistics insist on a LaplaceMechanism.
class Laplace : public dp::LaplaceMechanism {
 public:
  Laplace(double eps, double l1, bool real)
      : dp::LaplaceMechanism(eps, l1), real_(real), id_(NextMechanism()) {}
  int id() const { return id_; }

 protected:
  double AddDoubleNoise(double x) override {
    return Drawn(id_, x, real_ ? dp::LaplaceMechanism::AddDoubleNoise(x) : Planned(x));
  }
  int64_t AddInt64Noise(int64_t x) override {
    return Drawn(id_, x, real_ ? dp::LaplaceMechanism::AddInt64Noise(x) : Planned(x));
  }

 private:
  const bool real_;
  const int id_;
};

class LaplaceBuilder : public dp::LaplaceMechanism::Builder {
 public:
  explicit LaplaceBuilder(bool real) : real_(real) {}
  absl::StatusOr<std::unique_ptr<dp::NumericalMechanism>> Build() override {
    auto inner = dp::LaplaceMechanism::Builder::Build();
    if (!inner.ok()) return inner.status();
    auto* l = dynamic_cast<dp::LaplaceMechanism*>(inner.value().get());
    if (l == nullptr) Harness("not a Laplace mechanism");
    auto m = std::make_unique<Laplace>(l->GetEpsilon(), l->GetSensitivity(), real_);
    std::string f = ",\"eps\":" + Num(l->GetEpsilon());
    if (auto v = GetL0Sensitivity()) f += ",\"l0\":" + Num(static_cast<double>(*v));
    if (auto v = GetLInfSensitivity()) f += ",\"linf\":" + Num(static_cast<double>(*v));
    Built(m->id(), "laplace", m->GetVariance(), f);
    return std::unique_ptr<dp::NumericalMechanism>(std::move(m));
  }
  std::unique_ptr<dp::NumericalMechanismBuilder> Clone() const override {
    return std::make_unique<LaplaceBuilder>(*this);
  }

 private:
  bool real_;
};

template <typename T, typename B>
Made Finish(B& b, const Args& a) {
  Common(b, a);
  b.SetLaplaceMechanism(std::make_unique<LaplaceBuilder>(a.s("mode", "plan") == "real"));
  Bounds<T>(b, a);
  return Wrap<T>(b.Build());
}
template <typename T>
Made Make(const Args& a, const std::string& kind) {
  if (kind == "max") {
    typename dp::continuous::Max<T>::Builder b;
    return Finish<T>(b, a);
  }
  if (kind == "min") {
    typename dp::continuous::Min<T>::Builder b;
    return Finish<T>(b, a);
  }
  if (kind == "median") {
    typename dp::continuous::Median<T>::Builder b;
    return Finish<T>(b, a);
  }
  if (kind == "percentile") {
    typename dp::continuous::Percentile<T>::Builder b;
    b.SetPercentile(a.d("p"));
    return Finish<T>(b, a);
  }
  Harness("kind " + kind);
}
}  // namespace
Made NewOrder(const Args& a, const std::string& t, const std::string& kind) {
  BY_TYPE(t, Make, a, kind);
}
}  // namespace sim
