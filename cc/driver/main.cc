// The C++ simulator: reads programs, runs each in a forked child (so that an
// abort ends one program and nothing carries over), prints one JSON line per
// operation and an end line with the child's fate.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <iostream>
#include <sstream>

#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"

#include "common.h"

namespace sim {

std::string Num(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", v);
  std::string s = b;
  if (s.find_first_of(".en") == std::string::npos) s += ".0";
  return s;
}
std::string Num(int64_t v) { return std::to_string(v); }
std::string Str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

namespace {
std::vector<std::string> events;
std::map<std::string, std::unique_ptr<Obj>> objs;
std::map<std::string, std::string> slots;
}  // namespace

void Event(const std::string& json) { events.push_back(json); }

void Harness(const std::string& what) {
  std::printf("{\"harness\":%s}\n", Str(what).c_str());
  std::fflush(stdout);
  _exit(3);
}

double ToDouble(const std::string& s) {
  char* end = nullptr;
  double v = std::strtod(s.c_str(), &end);
  if (end == s.c_str() || *end) Harness("number " + s);
  return v;
}
double Args::d(const std::string& k, double dflt) const {
  auto it = kv.find(k);
  return it == kv.end() ? dflt : ToDouble(it->second);
}
int64_t Args::i(const std::string& k, int64_t dflt) const {
  auto it = kv.find(k);
  return it == kv.end() ? dflt : std::stoll(it->second);
}
std::string Args::s(const std::string& k, const std::string& dflt) const {
  auto it = kv.find(k);
  return it == kv.end() ? dflt : it->second;
}
std::vector<std::string> Split(const std::string& s, char sep) {
  std::vector<std::string> out;
  std::string cur;
  std::istringstream in(s);
  while (std::getline(in, cur, sep)) out.push_back(cur);
  return out;
}

Plan& plan() {
  static Plan p;
  return p;
}

// --- the recording mechanism ---------------------------------------------
double Planned(double x) {
  auto& v = plan().vals;
  if (v.empty()) return plan().answers ? 0 : x;
  double n = v.front();
  v.pop_front();
  return plan().answers ? n : x + n;
}
int64_t Planned(int64_t x) {
  auto& v = plan().vals;
  if (v.empty()) return plan().answers ? 0 : x;
  double n = v.front();
  v.pop_front();
  uint64_t whole = static_cast<uint64_t>(static_cast<int64_t>(std::llround(n)));
  return static_cast<int64_t>(plan().answers ? whole : static_cast<uint64_t>(x) + whole);
}
namespace {
template <typename V>
V Record(int id, const char* kind, V in, V out) {
  Event("{\"e\":\"noise\",\"m\":" + Num(int64_t{id}) + ",\"k\":\"" + kind + "\",\"in\":" +
        Num(in) + ",\"out\":" + Num(out) + "}");
  return out;
}
}  // namespace
double Drawn(int id, double in, double out) { return Record(id, "d", in, out); }
int64_t Drawn(int id, int64_t in, int64_t out) { return Record(id, "i", in, out); }
int NextMechanism() {
  static int next = 0;
  return next++;
}
void Built(int id, const char* kind, double var, const std::string& f) {
  Event("{\"e\":\"build\",\"m\":" + Num(int64_t{id}) + ",\"kind\":\"" + kind +
        "\",\"var\":" + Num(var) + f + "}");
}

namespace {
class Recorder : public dp::NumericalMechanism {
 public:
  Recorder(double eps, std::unique_ptr<dp::NumericalMechanism> inner, bool real)
      : dp::NumericalMechanism(eps), inner_(std::move(inner)), real_(real), id_(NextMechanism()) {}
  int id() const { return id_; }
  bool NoisedValueAboveThreshold(double r, double t) override {
    bool b = inner_->NoisedValueAboveThreshold(r, t);
    Event("{\"e\":\"above\",\"m\":" + Num(int64_t{id_}) + ",\"in\":" + Num(r) +
          ",\"t\":" + Num(t) + "}");
    return b;
  }
  double ProbabilityOfNoisedValueAboveThreshold(double r, double t) override {
    return inner_->ProbabilityOfNoisedValueAboveThreshold(r, t);
  }
  int64_t MemoryUsed() override { return inner_->MemoryUsed(); }
  absl::StatusOr<dp::ConfidenceInterval> NoiseConfidenceInterval(double l, double r) override {
    return inner_->NoiseConfidenceInterval(l, r);
  }
  absl::StatusOr<dp::ConfidenceInterval> NoiseConfidenceInterval(double l) override {
    return inner_->NoiseConfidenceInterval(l);
  }
  NoiseConfidenceIntervalResult UncheckedNoiseConfidenceInterval(double l,
                                                                 double r) const override {
    return inner_->UncheckedNoiseConfidenceInterval(l, r);
  }
  double GetVariance() const override { return inner_->GetVariance(); }
  double Cdf(double x) const override { return inner_->Cdf(x); }
  double Quantile(double p) const override { return inner_->Quantile(p); }

 protected:
  double AddDoubleNoise(double x) override {
    return Drawn(id_, x, real_ ? inner_->AddNoise(x) : Planned(x));
  }
  int64_t AddInt64Noise(int64_t x) override {
    return Drawn(id_, x, real_ ? inner_->AddNoise(x) : Planned(x));
  }

 private:
  std::unique_ptr<dp::NumericalMechanism> inner_;
  const bool real_;
  const int id_;
};

class RecBuilder : public dp::NumericalMechanismBuilder {
 public:
  RecBuilder(bool gauss, bool real) : gauss_(gauss), real_(real) {}
  absl::StatusOr<std::unique_ptr<dp::NumericalMechanism>> Build() override {
    std::unique_ptr<dp::NumericalMechanismBuilder> in;
    if (gauss_) {
      in = std::make_unique<dp::GaussianMechanism::Builder>();
    } else {
      in = std::make_unique<dp::LaplaceMechanism::Builder>();
    }
    std::string f;
    if (auto v = GetEpsilon()) in->SetEpsilon(*v), f += ",\"eps\":" + Num(*v);
    if (auto v = GetDelta()) in->SetDelta(*v), f += ",\"delta\":" + Num(*v);
    if (auto v = GetL0Sensitivity()) in->SetL0Sensitivity(*v), f += ",\"l0\":" + Num(*v);
    if (auto v = GetLInfSensitivity()) in->SetLInfSensitivity(*v), f += ",\"linf\":" + Num(*v);
    auto m = in->Build();
    if (!m.ok()) {
      Event("{\"e\":\"nobuild\"" + f + "}");
      return m.status();
    }
    double var = m.value()->GetVariance();
    double eps = m.value()->GetEpsilon();
    auto r = std::make_unique<Recorder>(eps, std::move(m.value()), real_);
    Built(r->id(), gauss_ ? "gauss" : "laplace", var, f);
    return std::unique_ptr<dp::NumericalMechanism>(std::move(r));
  }
  std::unique_ptr<dp::NumericalMechanismBuilder> Clone() const override {
    return std::make_unique<RecBuilder>(*this);
  }

 private:
  bool gauss_, real_;
};
}  // namespace

std::unique_ptr<dp::NumericalMechanismBuilder> MechBuilder(const Args& a) {
  std::string n = a.s("noise", "laplace"), m = a.s("mode", "plan");
  return std::make_unique<RecBuilder>(n == "gauss", m == "real");
}

std::string Fail(const absl::Status& s) {
  return "\"err\":" + Str(std::string(s.message())) + ",\"code\":" +
         Num(static_cast<int64_t>(s.code()));
}

namespace {
std::string OutputJson(const dp::Output& o) {
  std::string s = "\"el\":[";
  for (int i = 0; i < o.elements_size(); ++i) {
    const auto& e = o.elements(i);
    const auto& v = e.value();
    if (i) s += ",";
    s += "{\"v\":";
    if (v.has_int_value()) {
      s += Num(static_cast<int64_t>(v.int_value()));
    } else if (v.has_float_value()) {
      s += Num(v.float_value());
    } else {
      s += Str(v.string_value());
    }
    if (e.has_noise_confidence_interval()) {
      const auto& c = e.noise_confidence_interval();
      s += ",\"ci\":[" + Num(c.lower_bound()) + "," + Num(c.upper_bound()) + "," +
           Num(c.confidence_level()) + "]";
    }
    s += "}";
  }
  s += "]";
  if (o.has_error_report()) {
    s += ",\"report\":" + Str(o.error_report().ShortDebugString());
  }
  return s;
}

std::string Ci(const dp::ConfidenceInterval& c) {
  return "\"ci\":[" + Num(c.lower_bound()) + "," + Num(c.upper_bound()) + "," +
         Num(c.confidence_level()) + "]";
}

// Deterministic damage to a serialised summary in transit.
std::string Mutate(const std::string& bytes, const Args& a) {
  const std::string how = a.pos.at(1);
  std::string b = bytes;
  if (how == "flip") {
    if (b.empty()) return b;
    size_t at = a.i("at") % b.size();
    b[at] = static_cast<char>(b[at] ^ (1 << (a.i("bit") % 8)));
  } else if (how == "cut") {
    b.resize(b.size() * static_cast<size_t>(a.i("num")) / 16);
  } else if (how == "empty") {
    b.clear();
  } else if (how == "join") {  // protobuf merge of two messages
    b += slots.at(a.s("with"));
  } else {
    dp::Summary s;
    if (!s.ParseFromString(b)) return b;
    auto each = [&](auto msg) {
      if (!s.data().UnpackTo(&msg)) return false;
      const auto* r = msg.GetReflection();
      const auto* d = msg.GetDescriptor();
      std::vector<const google::protobuf::FieldDescriptor*> fields;
      for (int i = 0; i < d->field_count(); ++i) {
        const auto* f = d->field(i);
        if (f->is_repeated() ? r->FieldSize(msg, f) > 0 : r->HasField(msg, f)) {
          fields.push_back(f);
        }
      }
      if (fields.empty()) return true;
      const auto* f = fields[a.i("field") % fields.size()];
      if (how == "drop") {
        r->ClearField(&msg, f);
      } else if (how == "short") {
        if (f->is_repeated()) {
          r->RemoveLast(&msg, f);
        } else {
          r->ClearField(&msg, f);
        }
      } else if (how == "bounds") {  // damage inside the bounds part only
        const auto* bf = d->FindFieldByName("bounds");
        if (bf && r->HasField(msg, bf)) {
          auto* sub = static_cast<dp::BoundsSummary*>(r->MutableMessage(&msg, bf));
          switch (a.i("field") % 3) {
            case 0:
              sub->Clear();
              break;
            case 1:
              if (sub->mutable_approx_bounds_summary()->pos_bin_count_size()) {
                sub->mutable_approx_bounds_summary()->mutable_pos_bin_count()->RemoveLast();
              }
              break;
            case 2:
              sub->mutable_approx_bounds_summary()->add_neg_bin_count(1);
              break;
          }
          msg.clear_bounds_summary();
        }
      }
      s.mutable_data()->PackFrom(msg);
      return true;
    };
    if constexpr (true) {
      auto generic = [&](auto msg) {
        if (!s.data().UnpackTo(&msg)) return false;
        const auto* r = msg.GetReflection();
        const auto* d = msg.GetDescriptor();
        std::vector<const google::protobuf::FieldDescriptor*> fields;
        for (int i = 0; i < d->field_count(); ++i) {
          const auto* f = d->field(i);
          if (f->is_repeated() ? r->FieldSize(msg, f) > 0 : r->HasField(msg, f)) {
            fields.push_back(f);
          }
        }
        if (fields.empty()) return true;
        const auto* f = fields[a.i("field") % fields.size()];
        if (how == "drop" || !f->is_repeated() || f->is_map()) {
          r->ClearField(&msg, f);
        } else if (how == "short") {
          r->RemoveLast(&msg, f);
        }
        s.mutable_data()->PackFrom(msg);
        return true;
      };
      if (how == "foreign") {
        dp::CountSummary c;
        dp::BoundedSumSummary bs;
        dp::BinarySearchSummary bin;
        switch (a.i("field") % 3) {
          case 0:
            c.set_count(7);
            s.mutable_data()->PackFrom(c);
            break;
          case 1:
            dp::SetValue(bs.add_pos_sum(), 5.0);
            dp::SetValue(bs.add_pos_sum(), 6.0);
            s.mutable_data()->PackFrom(bs);
            break;
          case 2:
            s.mutable_data()->PackFrom(bin);
            break;
        }
      } else {
        bool done = each(dp::BoundedSumSummary()) || each(dp::BoundedMeanSummary()) ||
                    each(dp::BoundedVarianceSummary()) ||
                    generic(dp::ApproxBoundsSummary()) || generic(dp::CountSummary()) ||
                    generic(dp::BinarySearchSummary()) || generic(dp::BoundedQuantilesSummary());
        (void)done;
      }
    }
    b = s.SerializeAsString();
  }
  return b;
}

std::string Run(const std::string& op, const Args& a) {
  if (op == "plan") {
    plan().vals.clear();
    for (const auto& v : a.pos) plan().vals.push_back(ToDouble(v));
    plan().answers = a.i("answers") != 0;
    return "";
  }
  if (op == "entropy") {
    SetEntropy(a);
    return "";
  }
  if (op.rfind("qt-", 0) == 0) return TreeOp(op, a);
  if (op.rfind("ps-", 0) == 0) return PartitionOp(op, a);
  if (op.rfind("rand-", 0) == 0) return RandOp(op, a);
  if (op == "new") {
    const std::string &id = a.pos.at(0), &kind = a.pos.at(1), &t = a.pos.at(2);
    Made m = kind == "count"    ? NewCount(a, t)
             : kind == "sum"    ? NewSum(a, t)
             : kind == "mean"   ? NewMean(a, t)
             : kind == "var"    ? NewVariance(a, t)
             : kind == "std"    ? NewVariance(a, t)
             : kind == "quant"  ? NewQuantiles(a, t)
             : kind == "approx" ? NewApprox(a, t)
                                : NewOrder(a, t, kind);
    if (!m.ok()) return Fail(m.status());
    objs[id] = std::move(m.value());
    return "\"eps\":" + Num(objs[id]->Epsilon()) + ",\"delta\":" + Num(objs[id]->Delta());
  }
  if (op == "mut") {
    slots[a.pos.at(0)] = Mutate(slots.at(a.pos.at(0)), a);
    return "";
  }
  if (op == "copy") {
    slots[a.pos.at(1)] = slots.at(a.pos.at(0));
    return "";
  }
  if (op == "slot") {  // the bytes, for comparisons
    return "\"hex\":" + Str([&] {
             std::string o;
             char b[4];
             for (unsigned char c : slots.at(a.pos.at(0))) {
               std::snprintf(b, sizeof b, "%02x", c);
               o += b;
             }
             return o;
           }());
  }
  auto it = objs.find(a.pos.at(0));
  if (it == objs.end()) return "\"absent\":1";
  Obj& o = *it->second;
  if (op == "add") {
    for (size_t i = 1; i < a.pos.size(); ++i) o.Add(a.pos[i]);
    return "";
  }
  if (op == "ser") {
    dp::Summary s = o.Serialize();
    dp::BoundedQuantilesSummary q;
    if (s.data().Is<dp::BoundedQuantilesSummary>() && s.data().UnpackTo(&q)) {
      // Map entries are written in an order that differs between processes.
      std::string b;
      {
        google::protobuf::io::StringOutputStream out(&b);
        google::protobuf::io::CodedOutputStream coded(&out);
        coded.SetSerializationDeterministic(true);
        q.SerializeToCodedStream(&coded);
      }
      s.mutable_data()->set_value(b);
    }
    slots[a.pos.at(1)] = s.SerializeAsString();
    return "";
  }
  if (op == "merge") {
    dp::Summary s;
    if (!s.ParseFromString(slots.at(a.pos.at(1)))) return "\"noparse\":1";
    absl::Status st = o.Merge(s);
    if (!st.ok()) return Fail(st);
    return "";
  }
  if (op == "result") {
    auto r = o.Result(a.pos.size() > 1 ? a.pos[1] : "");
    if (!r.ok()) return Fail(r.status());
    return OutputJson(r.value());
  }
  if (op == "results") {
    std::vector<std::string> v(a.pos.begin() + 1, a.pos.end());
    auto r = o.ResultOf(v);
    if (!r.ok()) return Fail(r.status());
    return OutputJson(r.value());
  }
  if (op == "reset") {
    o.Reset();
    return "";
  }
  if (op == "ci") {
    auto r = o.Ci(ToDouble(a.pos.at(1)));
    if (!r.ok()) return Fail(r.status());
    return Ci(r.value());
  }
  if (op == "mem") return "\"mem\":" + Num(o.Memory());
  Harness("op " + op);
}

void Child(const std::vector<std::string>& lines, int seconds) {
  alarm(seconds);
  for (const auto& line : lines) {
    Args a;
    std::istringstream in(line);
    std::string op, tok;
    in >> op;
    while (in >> tok) {
      auto eq = tok.find('=');
      if (eq != std::string::npos) {
        a.kv[tok.substr(0, eq)] = tok.substr(eq + 1);
      } else {
        a.pos.push_back(tok);
      }
    }
    events.clear();
    std::string body = Run(op, a);
    std::string ev;
    for (const auto& e : events) ev += (ev.empty() ? "" : ",") + e;
    std::string out = "{\"op\":" + Str(op);
    if (!body.empty()) out += "," + body;
    if (!ev.empty()) out += ",\"ev\":[" + ev + "]";
    out += "}\n";
    std::fputs(out.c_str(), stdout);
    std::fflush(stdout);
  }
}
}  // namespace
}  // namespace sim

int main() {
  std::string head;
  std::setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  while (std::getline(std::cin, head)) {
    std::istringstream in(head);
    int n = 0, seconds = 60;
    in >> n >> seconds;
    std::vector<std::string> lines(n);
    for (auto& l : lines) {
      if (!std::getline(std::cin, l)) return 1;
    }
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
      std::perror("fork");
      return 1;
    }
    if (pid == 0) {
      try {
        sim::Child(lines, seconds);
      } catch (const std::exception& e) {
        std::fprintf(stderr, "exception %s\n", e.what());
        std::fflush(stdout);
        std::_Exit(4);
      }
      std::fflush(stdout);
      std::_Exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
      std::printf("{\"end\":\"signal\",\"n\":%d}\n", WTERMSIG(status));
    } else {
      std::printf("{\"end\":\"exit\",\"n\":%d}\n", WEXITSTATUS(status));
    }
    std::fflush(stdout);
  }
  return 0;
}
