#include "algorithms/partition-selection.h"

#include "common.h"
namespace sim {
namespace {
struct Sel {
  std::unique_ptr<dp::PartitionSelectionStrategy> s;
  std::string kind;
};
std::map<std::string, Sel> sels;
}  // namespace

std::string PartitionOp(const std::string& op, const Args& a) {
  if (op == "ps-new") {
    const std::string& kind = a.pos.at(1);
    std::unique_ptr<dp::PartitionSelectionStrategyBuilder> b;
    if (kind == "magic") {
      b = std::make_unique<dp::NearTruncatedGeometricPartitionSelection::Builder>();
    } else if (kind == "laplace") {
      b = std::make_unique<dp::LaplacePartitionSelection::Builder>();
    } else if (kind == "gauss") {
      b = std::make_unique<dp::GaussianPartitionSelection::Builder>();
    } else {
      Harness("kind " + kind);
    }
    if (a.has("eps")) b->SetEpsilon(a.d("eps"));
    if (a.has("delta")) b->SetDelta(a.d("delta"));
    if (a.has("l0")) b->SetMaxPartitionsContributed(a.i("l0"));
    if (a.has("pre")) b->SetPreThreshold(a.i("pre"));
    auto r = b->Build();
    if (!r.ok()) return Fail(r.status());
    sels[a.pos.at(0)] = {std::move(r.value()), kind};
    auto& s = *sels[a.pos.at(0)].s;
    std::string out = "\"eps\":" + Num(s.GetEpsilon()) + ",\"delta\":" + Num(s.GetDelta()) +
                      ",\"l0\":" + Num(static_cast<int64_t>(s.GetMaxPartitionsContributed()));
    if (kind == "laplace") {
      out += ",\"t\":" +
             Num(static_cast<dp::LaplacePartitionSelection&>(s).GetThreshold());
    } else if (kind == "gauss") {
      out += ",\"t\":" +
             Num(static_cast<dp::GaussianPartitionSelection&>(s).GetThreshold());
    } else {
      auto& g = static_cast<dp::NearTruncatedGeometricPartitionSelection&>(s);
      out += ",\"c1\":" + Num(g.GetFirstCrossover()) + ",\"c2\":" + Num(g.GetSecondCrossover());
    }
    return out;
  }
  Sel& e = sels.at(a.pos.at(0));
  if (op == "ps-p") {
    std::string out = "\"p\":[";
    for (size_t i = 1; i < a.pos.size(); ++i) {
      out += (i > 1 ? "," : "") + Num(e.s->ProbabilityOfKeep(ToDouble(a.pos[i])));
    }
    return out + "]";
  }
  if (op == "ps-keep") {
    return std::string("\"keep\":") + (e.s->ShouldKeep(ToDouble(a.pos.at(1))) ? "1" : "0");
  }
  if (op == "ps-noise") {
    std::optional<double> v;
    if (e.kind == "laplace") {
      v = static_cast<dp::LaplacePartitionSelection&>(*e.s).NoiseValueIfShouldKeep(
          ToDouble(a.pos.at(1)));
    } else if (e.kind == "gauss") {
      v = static_cast<dp::GaussianPartitionSelection&>(*e.s).NoiseValueIfShouldKeep(
          ToDouble(a.pos.at(1)));
    } else {
      Harness("no noised value");
    }
    return v ? "\"v\":" + Num(*v) : "\"v\":null";
  }
  Harness("op " + op);
}
}  // namespace sim
