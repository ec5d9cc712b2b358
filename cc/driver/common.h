// Shared parts of the C++ simulator's driver.
#ifndef VERIF_DRIVER_COMMON_H_
#define VERIF_DRIVER_COMMON_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "algorithms/algorithm.h"
#include "algorithms/numerical-mechanisms.h"
#include "proto/util.h"
#include "proto/summary.pb.h"

namespace sim {
namespace dp = differential_privacy;

// --- replies -------------------------------------------------------------
std::string Num(double v);
std::string Num(int64_t v);
std::string Str(const std::string& s);
void Event(const std::string& json);  // joins the reply of the operation in hand

[[noreturn]] void Harness(const std::string& what);

// --- arguments -----------------------------------------------------------
struct Args {
  std::vector<std::string> pos;
  std::map<std::string, std::string> kv;
  bool has(const std::string& k) const { return kv.count(k) != 0; }
  double d(const std::string& k, double dflt = 0) const;
  int64_t i(const std::string& k, int64_t dflt = 0) const;
  std::string s(const std::string& k, const std::string& dflt = "") const;
};
double ToDouble(const std::string& s);
template <typename T>
T To(const std::string& s) {
  if constexpr (std::is_floating_point_v<T>) {
    return static_cast<T>(ToDouble(s));
  } else {
    return static_cast<T>(std::stoll(s));
  }
}
std::vector<std::string> Split(const std::string& s, char sep);

// --- noise ---------------------------------------------------------------
struct Plan {
  std::deque<double> vals;  // planned noise, in order of the draws; then zero
  bool answers = false;     // the values are the outcomes themselves
};
Plan& plan();
double Planned(double x);
int64_t Planned(int64_t x);
double Drawn(int id, double in, double out);  // records and returns out
int64_t Drawn(int id, int64_t in, int64_t out);
int NextMechanism();
void Built(int id, const char* kind, double var, const std::string& fields);

// Builder of a recording mechanism around a real one.  mode "plan": the outcome
// is the input plus the planned noise.  mode "real": the real mechanism draws
// from the simulated entropy.
std::unique_ptr<dp::NumericalMechanismBuilder> MechBuilder(const Args& a);

// --- algorithms ----------------------------------------------------------
class Obj {
 public:
  virtual ~Obj() = default;
  virtual void Add(const std::string& v) = 0;
  virtual dp::Summary Serialize() = 0;
  virtual absl::Status Merge(const dp::Summary& s) = 0;
  virtual absl::StatusOr<dp::Output> Result(const std::string& level) = 0;
  virtual absl::StatusOr<dp::Output> ResultOf(const std::vector<std::string>& v) = 0;
  virtual void Reset() = 0;
  virtual absl::StatusOr<dp::ConfidenceInterval> Ci(double level) = 0;
  virtual int64_t Memory() = 0;
  virtual double Epsilon() = 0;
  virtual double Delta() = 0;
};

template <typename T, typename A>
class AlgObj : public Obj {
 public:
  explicit AlgObj(std::unique_ptr<A> a) : a_(std::move(a)) {}
  void Add(const std::string& v) override { a_->AddEntry(To<T>(v)); }
  dp::Summary Serialize() override { return a_->Serialize(); }
  absl::Status Merge(const dp::Summary& s) override { return a_->Merge(s); }
  absl::StatusOr<dp::Output> Result(const std::string& level) override {
    dp::Algorithm<T>* a = a_.get();
    if (level.empty()) return a->PartialResult();
    return a->PartialResult(ToDouble(level));
  }
  absl::StatusOr<dp::Output> ResultOf(const std::vector<std::string>& v) override {
    std::vector<T> in;
    for (const auto& s : v) in.push_back(To<T>(s));
    return a_->Result(in.begin(), in.end());
  }
  void Reset() override { a_->Reset(); }
  absl::StatusOr<dp::ConfidenceInterval> Ci(double level) override {
    dp::Algorithm<T>* a = a_.get();
    return a->NoiseConfidenceInterval(level);
  }
  int64_t Memory() override { return a_->MemoryUsed(); }
  double Epsilon() override { return a_->GetEpsilon(); }
  double Delta() override { return a_->GetDelta(); }

 private:
  std::unique_ptr<A> a_;
};

template <typename T, typename A>
absl::StatusOr<std::unique_ptr<Obj>> Wrap(absl::StatusOr<std::unique_ptr<A>> a) {
  if (!a.ok()) return a.status();
  return std::unique_ptr<Obj>(new AlgObj<T, A>(std::move(a.value())));
}

template <typename B>
void Common(B& b, const Args& a) {
  if (a.has("eps")) b.SetEpsilon(a.d("eps"));
  if (a.has("delta")) b.SetDelta(a.d("delta"));
  if (a.has("l0")) b.SetMaxPartitionsContributed(a.i("l0"));
  if (a.has("linf")) b.SetMaxContributionsPerPartition(a.i("linf"));
  b.SetLaplaceMechanism(MechBuilder(a));
}
template <typename T, typename B>
void Bounds(B& b, const Args& a) {
  if (a.has("lower")) b.SetLower(To<T>(a.s("lower")));
  if (a.has("upper")) b.SetUpper(To<T>(a.s("upper")));
}

using Made = absl::StatusOr<std::unique_ptr<Obj>>;
Made NewCount(const Args& a, const std::string& t);
Made NewSum(const Args& a, const std::string& t);
Made NewMean(const Args& a, const std::string& t);
Made NewVariance(const Args& a, const std::string& t);
Made NewQuantiles(const Args& a, const std::string& t);
Made NewOrder(const Args& a, const std::string& t, const std::string& kind);
Made NewApprox(const Args& a, const std::string& t);

// --- other operations: each returns the JSON fields of its reply ----------
std::string TreeOp(const std::string& op, const Args& a);       // d_quant.cc
std::string PartitionOp(const std::string& op, const Args& a);  // d_part.cc
std::string RandOp(const std::string& op, const Args& a);       // d_rand.cc
std::string Fail(const absl::Status& s);

// --- entropy (d_rand.cc) ---------------------------------------------------
void SetEntropy(const Args& a);
}  // namespace sim

// One template instantiation per element type.
#define BY_TYPE(t, F, ...)                         \
  if (t == "i") return F<int>(__VA_ARGS__);        \
  if (t == "l") return F<int64_t>(__VA_ARGS__);    \
  if (t == "d") return F<double>(__VA_ARGS__);     \
  sim::Harness("type " + t)
#endif
