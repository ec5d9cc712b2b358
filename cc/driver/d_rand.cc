// Simulated entropy, and SecureURBG under a cooperative scheduler whose every
// switch is planned by the program.
#include "algorithms/rand.h"

#include <ucontext.h>

#include <cstring>
#include <unordered_map>

#include "algorithms/distributions.h"
#include "algorithms/numerical-mechanisms.h"
#include "common.h"
#include "openssl/rand.h"
#include "simmx.h"

namespace {
// --- scheduler -------------------------------------------------------------
struct Co {
  ucontext_t ctx;
  std::vector<char> stack;
  std::function<void()> body;
  bool done = false;
  bool blocked = false;
};
struct Sched {
  bool on = false;
  int cur = -1;
  int64_t step = 0, switches = 0;
  std::map<int64_t, int> plan;  // step -> thread to run next
  std::vector<std::unique_ptr<Co>> cos;
  ucontext_t main;
  bool deadlock = false;
} sched;

void SwitchTo(int t) {
  int from = sched.cur;
  if (t == from) return;
  ++sched.switches;
  sched.cur = t;
  swapcontext(&sched.cos[from]->ctx, &sched.cos[t]->ctx);
}
int NextRunnable(int after) {
  int n = sched.cos.size();
  for (int k = 1; k <= n; ++k) {
    int t = (after + k) % n;
    if (!sched.cos[t]->done && !sched.cos[t]->blocked) return t;
  }
  return -1;
}
void Trampoline() {
  Co& c = *sched.cos[sched.cur];
  c.body();
  c.done = true;
  int t = NextRunnable(sched.cur);
  if (t < 0) {
    for (auto& x : sched.cos) {
      if (!x->done) sched.deadlock = true;
    }
    setcontext(&sched.main);
  }
  sched.cur = t;
  setcontext(&sched.cos[t]->ctx);
}
}  // namespace

namespace simmx {
int Current() { return sched.cur; }
void Yield() {
  if (!sched.on) return;
  int64_t s = sched.step++;
  auto it = sched.plan.find(s);
  if (it == sched.plan.end()) return;
  int t = it->second % static_cast<int>(sched.cos.size());
  if (sched.cos[t]->done || sched.cos[t]->blocked) return;
  SwitchTo(t);
}
void Block(const void*) {
  if (!sched.on) {
    std::fprintf(stderr, "self-deadlock outside the scheduler\n");
    std::abort();
  }
  sched.cos[sched.cur]->blocked = true;
  int t = NextRunnable(sched.cur);
  if (t < 0) {
    sched.deadlock = true;
    setcontext(&sched.main);
  }
  SwitchTo(t);
}
static void Wake() {
  for (auto& c : sched.cos) c->blocked = false;
}
void Mutex::Lock() {
  Yield();
  while (held_ || readers_) Block(this);
  held_ = true;
}
bool Mutex::TryLock() {
  Yield();
  if (held_ || readers_) return false;
  return held_ = true;
}
void Mutex::Unlock() {
  held_ = false;
  Wake();
  Yield();
}
void Mutex::ReaderLock() {
  Yield();
  while (held_) Block(this);
  ++readers_;
}
void Mutex::ReaderUnlock() {
  --readers_;
  Wake();
  Yield();
}
}  // namespace simmx

// Initialisation guards of function statics, cooperative: byte 0 is "done",
// byte 1 "in progress".
extern "C" int __cxa_guard_acquire(uint64_t* g) {
  auto* b = reinterpret_cast<char*>(g);
  while (!b[0] && b[1]) simmx::Block(g);
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g) {
  auto* b = reinterpret_cast<char*>(g);
  b[0] = 1;
  b[1] = 0;
  simmx::Wake();
}
extern "C" void __cxa_guard_abort(uint64_t* g) {
  reinterpret_cast<char*>(g)[1] = 0;
  simmx::Wake();
}

// Every load and store of the instrumented rand.cc is a scheduling point.
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t*) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_load1(void*) { simmx::Yield(); }
void __sanitizer_cov_load2(void*) { simmx::Yield(); }
void __sanitizer_cov_load4(void*) { simmx::Yield(); }
void __sanitizer_cov_load8(void*) { simmx::Yield(); }
void __sanitizer_cov_load16(void*) { simmx::Yield(); }
void __sanitizer_cov_store1(void*) { simmx::Yield(); }
void __sanitizer_cov_store2(void*) { simmx::Yield(); }
void __sanitizer_cov_store4(void*) { simmx::Yield(); }
void __sanitizer_cov_store8(void*) { simmx::Yield(); }
void __sanitizer_cov_store16(void*) { simmx::Yield(); }
}

// --- entropy ---------------------------------------------------------------
namespace {
struct Entropy {
  uint64_t seed = 1;
  int64_t calls = 0;
  int64_t fail_at = -1;
  int code = 0;
  std::string fill = "none";
  std::vector<uint64_t> words;  // planned words of the first call
  // word -> (call, index); index -1: from a failed call
  std::unordered_map<uint64_t, std::pair<int64_t, int64_t>> tag;
  bool tagged = false;
} ent;

uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
}  // namespace

extern "C" int RAND_bytes(unsigned char* buf, int num) {
  int64_t call = ent.calls++;
  bool fail = call == ent.fail_at;
  int upto = num;
  if (fail) upto = ent.fill == "none" ? 0 : ent.fill == "half" ? num / 2 : num;
  for (int i = 0; i < upto; i += 8) {
    uint64_t w = Mix(ent.seed * 0x100000001b3ULL + static_cast<uint64_t>(call) * 1000003ULL +
                     static_cast<uint64_t>(i / 8));
    if (call == 0 && static_cast<size_t>(i / 8) < ent.words.size()) w = ent.words[i / 8];
    if (ent.tagged) ent.tag[w] = {call, fail ? -1 : i / 8};
    std::memcpy(buf + i, &w, std::min(8, upto - i));
    if (i == (num / 16) * 8) simmx::Yield();
  }
  sim::Event("{\"e\":\"entropy\",\"call\":" + sim::Num(call) + ",\"num\":" +
             sim::Num(int64_t{num}) + ",\"fail\":" + (fail ? "1" : "0") + "}");
  simmx::Yield();
  return fail ? ent.code : 1;
}

namespace sim {
void SetEntropy(const Args& a) {
  ent.seed = static_cast<uint64_t>(a.i("seed", 1));
  ent.fail_at = a.i("fail", -1);
  ent.code = a.i("code", 0);
  ent.fill = a.s("fill", "none");
  ent.words.clear();
  for (const auto& w : Split(a.s("words"), ',')) ent.words.push_back(std::stoull(w));
  ent.tagged = a.i("tagged", 0);
}

namespace {
std::string Tag(uint64_t w) {
  auto it = ent.tag.find(w);
  if (it == ent.tag.end()) return "null";
  return "[" + Num(it->second.first) + "," + Num(it->second.second) + "]";
}
}  // namespace

std::string RandOp(const std::string& op, const Args& a) {
  auto& g = dp::SecureURBG::GetInstance;
  if (op == "rand-draw") {
    std::string out;
    for (int64_t i = 0; i < a.i("n", 1); ++i) {
      uint64_t w = g()();
      if (a.i("quiet")) continue;
      out += (out.empty() ? "" : ",") + Tag(w);
    }
    return "\"w\":[" + out + "]";
  }
  if (op == "rand-uniform") {
    std::string out;
    for (int64_t i = 0; i < a.i("n", 1); ++i) {
      out += (i ? "," : "") + Num(dp::UniformDouble());
    }
    return "\"u\":[" + out + "]";
  }
  if (op == "rand-threads") {
    int n = a.i("n", 2);
    int64_t draws = a.i("draws", 1);
    std::string what = a.s("what", "draw");
    sched = Sched();
    for (const auto& p : Split(a.s("plan"), ',')) {
      auto kv = Split(p, ':');
      sched.plan[std::stoll(kv.at(0))] = std::stoi(kv.at(1));
    }
    std::vector<std::string> got(n);
    for (int t = 0; t < n; ++t) {
      auto c = std::make_unique<Co>();
      c->stack.resize(256 << 10);
      c->body = [t, draws, what, &got, &g]() {
        for (int64_t i = 0; i < draws; ++i) {
          if (what == "uniform") {
            got[t] += (i ? "," : "") + Num(dp::UniformDouble());
          } else {
            uint64_t w = g()();
            got[t] += (i ? "," : "") + Tag(w);
          }
        }
      };
      getcontext(&c->ctx);
      c->ctx.uc_stack.ss_sp = c->stack.data();
      c->ctx.uc_stack.ss_size = c->stack.size();
      c->ctx.uc_link = nullptr;
      makecontext(&c->ctx, Trampoline, 0);
      sched.cos.push_back(std::move(c));
    }
    sched.on = true;
    sched.cur = a.i("first", 0) % n;
    volatile bool entered = false;
    getcontext(&sched.main);
    if (!entered) {
      entered = true;
      setcontext(&sched.cos[sched.cur]->ctx);
    }
    sched.on = false;
    std::string out = "\"steps\":" + Num(sched.step) + ",\"switches\":" + Num(sched.switches) +
                      ",\"deadlock\":" + (sched.deadlock ? "1" : "0") + ",\"t\":[";
    for (int t = 0; t < n; ++t) out += (t ? ",[" : "[") + got[t] + "]";
    return out + "]";
  }
  if (op == "rand-noise") {  // real mechanisms on simulated entropy
    std::unique_ptr<dp::NumericalMechanismBuilder> b;
    std::string kind = a.s("noise");
    if (kind == "laplace") {
      auto l = std::make_unique<dp::LaplaceMechanism::Builder>();
      if (a.has("l1")) l->SetL1Sensitivity(a.d("l1"));
      b = std::move(l);
    } else if (kind == "gauss") {
      auto g = std::make_unique<dp::GaussianMechanism::Builder>();
      if (a.has("l2")) g->SetL2Sensitivity(a.d("l2"));
      if (a.has("stddev")) g->SetStandardDeviation(a.d("stddev"));
      b = std::move(g);
    } else {
      b = std::make_unique<dp::MinVarianceMechanismBuilder>();
    }
    if (a.has("eps")) b->SetEpsilon(a.d("eps"));
    if (a.has("delta")) b->SetDelta(a.d("delta"));
    if (a.has("l0")) b->SetL0Sensitivity(a.d("l0"));
    if (a.has("linf")) b->SetLInfSensitivity(a.d("linf"));
    auto m = a.i("clone") ? b->Clone()->Build() : b->Build();
    if (!m.ok()) return Fail(m.status());
    if (a.i("ser")) {  // the mechanism that a stored description restores
      if (auto* l = dynamic_cast<dp::LaplaceMechanism*>(m.value().get())) {
        differential_privacy::serialization::LaplaceMechanism p;
        if (!p.ParseFromString(l->Serialize().SerializeAsString())) Harness("serialise");
        m = dp::LaplaceMechanism::Deserialize(p);
      } else {
        auto* g = dynamic_cast<dp::GaussianMechanism*>(m.value().get());
        differential_privacy::serialization::GaussianMechanism p;
        if (!p.ParseFromString(g->Serialize().SerializeAsString())) Harness("serialise");
        m = dp::GaussianMechanism::Deserialize(p);
      }
      if (!m.ok()) return Fail(m.status());
    }
    std::string out;
    bool integer = a.i("int");
    for (int64_t i = 0; i < a.i("n", 1); ++i) {
      if (i) out += ",";
      if (integer) {
        out += Num(static_cast<int64_t>(m.value()->AddNoise(static_cast<int64_t>(a.i("x")))));
      } else {
        out += Num(m.value()->AddNoise(a.d("x")));
      }
    }
    std::string cdf, quant, ci;
    for (const auto& x : Split(a.s("at"), ',')) {
      cdf += (cdf.empty() ? "" : ",") + Num(m.value()->Cdf(ToDouble(x)));
    }
    for (const auto& x : Split(a.s("ps"), ',')) {
      quant += (quant.empty() ? "" : ",") + Num(m.value()->Quantile(ToDouble(x)));
    }
    for (const auto& x : Split(a.s("levels"), ',')) {
      ci += ci.empty() ? "" : ",";
      auto r = m.value()->NoiseConfidenceInterval(ToDouble(x), a.d("x"));
      if (!r.ok()) {
        ci += "null";
      } else {
        ci += "[" + Num(r->lower_bound()) + "," + Num(r->upper_bound()) + "," +
              Num(r->confidence_level()) + "]";
      }
    }
    bool lap = dynamic_cast<dp::LaplaceMechanism*>(m.value().get()) != nullptr;
    return "\"laplace\":" + std::string(lap ? "1" : "0") +
           ",\"var\":" + Num(m.value()->GetVariance()) + ",\"cdf\":[" + cdf + "],\"q\":[" +
           quant + "],\"ci\":[" + ci + "],\"v\":[" + out + "]";
  }
  Harness("op " + op);
}
}  // namespace sim
