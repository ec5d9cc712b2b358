// Runs programs of operations on the privacy-loss distributions of cc/accounting.
// One program per child process; the only thing that outlives a child is what the
// program got out of it.
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

#include "absl/status/statusor.h"
#include "accounting/accountant.h"
#include "accounting/common/common.h"
#include "accounting/convolution.h"
#include "accounting/privacy_loss_distribution.h"
#include "accounting/privacy_loss_mechanism.h"
#include "kissfft/kiss_fft.h"
#include "proto/accounting/privacy-loss-distribution.pb.h"

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1"; }

namespace {
namespace ac = differential_privacy::accounting;
using Pld = ac::PrivacyLossDistribution;
std::map<std::string, std::unique_ptr<Pld>> objs;

[[noreturn]] void Harness(const std::string& m) {
  std::printf("{\"harness\":\"%s\"}\n", m.c_str());
  std::fflush(stdout);
  std::_Exit(3);
}
std::string Num(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
double D(const std::string& s) { return std::strtod(s.c_str(), nullptr); }
int I(const std::string& s) { return std::atoi(s.c_str()); }

std::string Fail(const absl::Status& s) {
  return "\"err\":" + std::to_string(static_cast<int>(s.code()));
}
std::string Value(const absl::StatusOr<double>& v) {
  return v.ok() ? "\"v\":" + Num(*v) : Fail(v.status());
}
ac::EstimateType Est(const std::string& s) {
  return s == "p" ? ac::EstimateType::kPessimistic : ac::EstimateType::kOptimistic;
}
ac::ProbabilityMassFunction Pmf(const std::string& s) {  // k:p,k:p
  ac::ProbabilityMassFunction out;
  std::istringstream in(s);
  std::string t;
  while (std::getline(in, t, ',')) {
    auto c = t.find(':');
    if (c != std::string::npos) out[I(t.substr(0, c))] = D(t.substr(c + 1));
  }
  return out;
}

absl::StatusOr<std::unique_ptr<ac::AdditiveNoisePrivacyLoss>> Mechanism(
    const std::string& kind, double a, double s, ac::EstimateType e, double trunc) {
  absl::Status bad;
  std::unique_ptr<ac::AdditiveNoisePrivacyLoss> out;
  auto take = [&](auto r) {
    if (r.ok()) {
      out = std::move(r.value());
    } else {
      bad = r.status();
    }
  };
  if (kind == "laplace") {
    take(ac::LaplacePrivacyLoss::Create(a, s));
  } else if (kind == "gauss") {
    take(ac::GaussianPrivacyLoss::Create(a, s, e, trunc));
  } else if (kind == "dlaplace") {
    take(ac::DiscreteLaplacePrivacyLoss::Create(a, static_cast<int>(s)));
  } else if (kind == "dgauss") {
    take(ac::DiscreteGaussianPrivacyLoss::Create(a, static_cast<int>(s)));
  } else {
    Harness("mechanism");
  }
  if (!bad.ok()) return bad;
  return out;
}

absl::StatusOr<std::unique_ptr<Pld>> Make(const std::vector<std::string>& p) {
  const std::string& kind = p.at(1);
  const ac::EstimateType e = Est(p.at(2));
  const double h = D(p.at(3));
  if (kind == "identity") return Pld::CreateIdentity(h);
  if (kind == "params") return Pld::CreateForPrivacyParameters({D(p.at(4)), D(p.at(5))}, h);
  if (kind == "rr") return Pld::CreateForRandomizedResponse(D(p.at(4)), I(p.at(5)), e, h);
  if (kind == "pmf") return Pld::Create(Pmf(p.at(4)), Pmf(p.at(5)), e, h, D(p.at(6)));
  if (kind == "laplace") return Pld::CreateForLaplaceMechanism(D(p.at(4)), D(p.at(5)), e, h);
  if (kind == "gauss")
    return Pld::CreateForGaussianMechanism(D(p.at(4)), D(p.at(5)), e, h, D(p.at(6)));
  if (kind == "dlaplace")
    return Pld::CreateForDiscreteLaplaceMechanism(D(p.at(4)), I(p.at(5)), e, h);
  if (kind == "dgauss") {
    const int b = I(p.at(6));
    return Pld::CreateForDiscreteGaussianMechanism(
        D(p.at(4)), I(p.at(5)), e, h, b > 0 ? std::optional<int>(b) : std::nullopt);
  }
  Harness("kind " + kind);
}

std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o;
}
std::string Unhex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return o;
}

std::string Run(const std::string& op, const std::vector<std::string>& p) {
  if (op == "mk") {
    auto r = Make(p);
    if (!r.ok()) return Fail(r.status());
    objs[p.at(0)] = std::move(r.value());
    return "\"ok\":1";
  }
  if (op == "deser") {
    ac::serialization::PrivacyLossDistribution proto;
    if (!proto.ParseFromString(Unhex(p.size() > 1 ? p[1] : ""))) return "\"noparse\":1";
    auto r = Pld::Deserialize(proto);
    if (!r.ok()) return Fail(r.status());
    objs[p.at(0)] = std::move(r.value());
    return "\"ok\":1";
  }
  if (op == "order") {  // must come before any map is made
    verif_hash::order = std::strtoull(p.at(0).c_str(), nullptr, 10);
    return "";
  }
  if (op == "failalloc") {
    verif_fft::fail_in = I(p.at(0));
    return "";
  }
  if (op == "closed") {  // kind a s eps
    auto r = Mechanism(p.at(0), D(p.at(1)), D(p.at(2)), ac::EstimateType::kPessimistic, -50);
    if (!r.ok()) return Fail(r.status());
    return "\"v\":" + Num((*r)->GetDeltaForEpsilon(D(p.at(3))));
  }
  if (op == "calib") {  // kind eps delta s: the parameter of a mechanism made to order
    ac::EpsilonDelta ed{D(p.at(1)), D(p.at(2))};
    auto dev = [](auto r, auto f) -> std::string {
      return r.ok() ? "\"v\":" + Num(f(*r.value())) : Fail(r.status());
    };
    if (p[0] == "gauss")
      return dev(ac::GaussianPrivacyLoss::Create(ed), [](auto& m) { return m.StandardDeviation(); });
    if (p[0] == "laplace")
      return dev(ac::LaplacePrivacyLoss::Create(ed), [](auto& m) { return m.Parameter(); });
    if (p[0] == "dlaplace")
      return dev(ac::DiscreteLaplacePrivacyLoss::Create(ed, I(p.at(3))), [](auto& m) { return m.Parameter(); });
    if (p[0] == "dgauss")
      return dev(ac::DiscreteGaussianPrivacyLoss::Create(ed, I(p.at(3))), [](auto& m) { return m.Sigma(); });
    Harness("calib");
  }
  if (op == "smallest") {  // kind eps delta queries s upper tol
    const std::string kind = p.at(0);
    auto make = [kind](double a, double s) {
      auto r = Mechanism(kind, a, s, ac::EstimateType::kPessimistic, -50);
      if (!r.ok()) std::abort();
      return std::move(r.value());
    };
    const double up = D(p.at(5));
    return Value(ac::GetSmallestParameter({D(p.at(1)), D(p.at(2))}, I(p.at(3)), D(p.at(4)), make,
                                          up > 0 ? std::optional<double>(up) : std::nullopt,
                                          D(p.at(6))));
  }
  if (op == "adv") return Value(ac::AdvancedComposition({D(p.at(0)), D(p.at(1))}, I(p.at(2)), D(p.at(3))));
  if (op == "inv") {  // lo hi guess tol discrete increasing value fail x:y,x:y (a step function)
    std::vector<std::pair<double, double>> steps;
    std::istringstream in(p.at(8));
    std::string t;
    while (std::getline(in, t, ',')) {
      auto c = t.find(':');
      steps.push_back({D(t.substr(0, c)), D(t.substr(c + 1))});
    }
    long calls = 0;
    const long fail = I(p.at(7));
    double lo = 1e300, hi = -1e300;
    auto f = [&](double x) -> absl::StatusOr<double> {
      lo = std::min(lo, x);
      hi = std::max(hi, x);
      if (++calls == fail) return absl::ResourceExhaustedError("injected");
      if (calls > 20000) {
        std::fflush(stdout);
        std::_Exit(9);  // no progress
      }
      double y = steps.at(0).second;  // the value from x on
      for (const auto& s : steps) {
        if (x >= s.first) y = s.second;
      }
      return y;
    };
    ac::BinarySearchParameters b{D(p.at(0)), D(p.at(1)), std::nullopt, D(p.at(3)), p.at(4) == "1"};
    if (p.at(2) != "-") b.initial_guess = D(p.at(2));
    std::string v = Value(ac::InverseMonotoneFunction(f, D(p.at(6)), b, p.at(5) == "1"));
    return v + ",\"calls\":" + std::to_string(calls) + ",\"lo\":" + Num(lo) + ",\"hi\":" + Num(hi);
  }
  auto it = objs.find(p.at(0));
  if (it == objs.end()) return "\"absent\":1";
  Pld& o = *it->second;
  if (op == "compose") {
    auto j = objs.find(p.at(1));
    if (j == objs.end()) return "\"absent\":1";
    absl::Status s = p.size() > 2 ? o.Compose(*j->second, D(p[2])) : o.Compose(*j->second);
    return s.ok() ? "\"ok\":1" : Fail(s);
  }
  if (op == "pow") {
    if (p.size() > 2) {
      o.Compose(I(p.at(1)), D(p[2]));
    } else {
      o.Compose(I(p.at(1)));
    }
    return "\"ok\":1";
  }
  if (op == "delta") return "\"v\":" + Num(o.GetDeltaForEpsilon(D(p.at(1))));
  if (op == "eps") return "\"v\":" + Num(o.GetEpsilonForDelta(D(p.at(1))));
  if (op == "deltac") {
    auto j = objs.find(p.at(1));
    if (j == objs.end()) return "\"absent\":1";
    return Value(o.GetDeltaForEpsilonForComposedPLD(*j->second, D(p.at(2))));
  }
  if (op == "ser") {
    auto r = o.Serialize();
    if (!r.ok()) return Fail(r.status());
    return "\"hex\":\"" + Hex(r->SerializeAsString()) + "\"";
  }
  if (op == "pmf") {
    std::map<int, double> m(o.Pmf().begin(), o.Pmf().end());
    std::string s = "\"inf\":" + Num(o.InfinityMass()) + ",\"h\":" + Num(o.DiscretizationInterval()) +
                    ",\"pess\":" + (o.GetEstimateType() == ac::EstimateType::kPessimistic ? "1" : "0") +
                    ",\"pmf\":[";
    bool first = true;
    for (auto& [k, v] : m) {
      s += (first ? "[" : ",[") + std::to_string(k) + "," + Num(v) + "]";
      first = false;
    }
    return s + "]";
  }
  if (op == "drop") {
    objs.erase(it);
    return "";
  }
  Harness("op " + op);
}

void Child(const std::vector<std::string>& lines, int seconds) {
  alarm(seconds);
  for (const auto& line : lines) {
    std::istringstream in(line);
    std::string op, t;
    in >> op;
    std::vector<std::string> p;
    while (in >> t) p.push_back(t);
    std::string body = Run(op, p);
    std::string out = "{\"op\":\"" + op + "\"" + (body.empty() ? "" : "," + body) + "}\n";
    std::fputs(out.c_str(), stdout);
    std::fflush(stdout);
  }
}
}  // namespace

int main() {
  std::string head;
  std::setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  while (std::getline(std::cin, head)) {
    std::istringstream in(head);
    int n = 0, seconds = 60;
    in >> n >> seconds;
    std::vector<std::string> lines(n);
    for (auto& l : lines) {
      if (!std::getline(std::cin, l)) return 1;
    }
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 1;
    if (pid == 0) {
      try {
        Child(lines, seconds);
      } catch (const std::exception& e) {
        std::fflush(stdout);
        std::_Exit(4);
      }
      std::fflush(stdout);
      std::_Exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
      std::printf("{\"end\":\"signal\",\"n\":%d}\n", WTERMSIG(status));
    } else {
      std::printf("{\"end\":\"exit\",\"n\":%d}\n", WEXITSTATUS(status));
    }
    std::fflush(stdout);
  }
  return 0;
}
