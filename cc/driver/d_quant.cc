#include "algorithms/quantile-tree.h"
#include "algorithms/quantiles.h"

#include "common.h"
namespace sim {
namespace {
std::vector<double> List(const std::string& s) {
  std::vector<double> v;
  for (const auto& x : Split(s, ',')) v.push_back(ToDouble(x));
  return v;
}
template <typename T>
Made Make(const Args& a) {
  typename dp::Quantiles<T>::Builder b;
  Common(b, a);
  Bounds<T>(b, a);
  if (a.has("q")) b.SetQuantiles(List(a.s("q")));
  return Wrap<T>(b.Build());
}

// The tree by itself, with its privatised versions.
class Tree {
 public:
  virtual ~Tree() = default;
  virtual void Add(const std::string& v) = 0;
  virtual dp::BoundedQuantilesSummary Ser() = 0;
  virtual absl::Status Merge(const dp::BoundedQuantilesSummary& s) = 0;
  virtual void Reset() = 0;
  virtual absl::Status Private(const std::string& id, const Args& a) = 0;
  virtual absl::StatusOr<double> Q(const std::string& id, double q) = 0;
  virtual absl::StatusOr<dp::ConfidenceInterval> CI(const std::string& id, double q, double l) = 0;
};
template <typename T>
class TreeOf : public Tree {
 public:
  explicit TreeOf(std::unique_ptr<dp::QuantileTree<T>> t) : t_(std::move(t)) {}
  void Add(const std::string& v) override { t_->AddEntry(To<T>(v)); }
  dp::BoundedQuantilesSummary Ser() override { return t_->Serialize(); }
  absl::Status Merge(const dp::BoundedQuantilesSummary& s) override { return t_->Merge(s); }
  void Reset() override { t_->Reset(); }
  absl::Status Private(const std::string& id, const Args& a) override {
    typename dp::QuantileTree<T>::DPParams p;
    p.epsilon = a.d("eps");
    p.delta = a.d("delta");
    p.max_contributions_per_partition = a.i("linf", 1);
    p.max_partitions_contributed_to = a.i("l0", 1);
    p.mechanism_builder = MechBuilder(a);
    auto r = t_->MakePrivate(p);
    if (!r.ok()) return r.status();
    priv_.erase(id);
    priv_.emplace(id, std::move(r.value()));
    return absl::OkStatus();
  }
  absl::StatusOr<double> Q(const std::string& id, double q) override {
    return priv_.at(id).GetQuantile(q);
  }
  absl::StatusOr<dp::ConfidenceInterval> CI(const std::string& id, double q, double l) override {
    return priv_.at(id).ComputeNoiseConfidenceInterval(q, l);
  }

 private:
  std::unique_ptr<dp::QuantileTree<T>> t_;
  std::map<std::string, typename dp::QuantileTree<T>::Privatized> priv_;
};
std::map<std::string, std::unique_ptr<Tree>> trees;
std::map<std::string, dp::BoundedQuantilesSummary> sums;

template <typename T>
absl::StatusOr<std::unique_ptr<Tree>> MakeTree(const Args& a) {
  typename dp::QuantileTree<T>::Builder b;
  if (a.has("height")) b.SetTreeHeight(a.i("height"));
  if (a.has("branch")) b.SetBranchingFactor(a.i("branch"));
  Bounds<T>(b, a);
  auto t = b.Build();
  if (!t.ok()) return t.status();
  return std::unique_ptr<Tree>(new TreeOf<T>(std::move(t.value())));
}
absl::StatusOr<std::unique_ptr<Tree>> NewTree(const Args& a, const std::string& t) {
  BY_TYPE(t, MakeTree, a);
}
}  // namespace

Made NewQuantiles(const Args& a, const std::string& t) { BY_TYPE(t, Make, a); }

std::string TreeOp(const std::string& op, const Args& a) {
  if (op == "qt-new") {
    auto t = NewTree(a, a.pos.at(1));
    if (!t.ok()) return Fail(t.status());
    trees[a.pos.at(0)] = std::move(t.value());
    return "";
  }
  Tree& t = *trees.at(a.pos.at(0));
  if (op == "qt-add") {
    for (size_t i = 1; i < a.pos.size(); ++i) t.Add(a.pos[i]);
    return "";
  }
  if (op == "qt-ser") {
    sums[a.pos.at(1)] = t.Ser();
    return "";
  }
  if (op == "qt-merge") {
    absl::Status s = t.Merge(sums.at(a.pos.at(1)));
    return s.ok() ? "" : Fail(s);
  }
  if (op == "qt-reset") {
    t.Reset();
    return "";
  }
  if (op == "qt-priv") {
    absl::Status s = t.Private(a.pos.at(1), a);
    return s.ok() ? "" : Fail(s);
  }
  if (op == "qt-q") {
    auto r = t.Q(a.pos.at(1), ToDouble(a.pos.at(2)));
    return r.ok() ? "\"v\":" + Num(r.value()) : Fail(r.status());
  }
  if (op == "qt-ci") {
    auto r = t.CI(a.pos.at(1), ToDouble(a.pos.at(2)), ToDouble(a.pos.at(3)));
    if (!r.ok()) return Fail(r.status());
    return "\"ci\":[" + Num(r.value().lower_bound()) + "," + Num(r.value().upper_bound()) + "]";
  }
  Harness("op " + op);
}
}  // namespace sim
