// Runs programs of calls that a database server would make of the extension's
// functions, and the same statistics straight from the library.  One program per
// child process.
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

#include "algorithms/algorithm.h"
#include "algorithms/bounded-mean.h"
#include "algorithms/bounded-standard-deviation.h"
#include "algorithms/bounded-sum.h"
#include "algorithms/bounded-variance.h"
#include "algorithms/count.h"
#include "algorithms/order-statistics.h"
extern "C" {
#include "postgres.h"
}

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1"; }

namespace {
namespace dp = differential_privacy;

// --- entropy
uint64_t seed = 1, draws = 0;
uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

[[noreturn]] void Harness(const std::string& m) {
  std::printf("{\"harness\":\"%s\"}\n", m.c_str());
  std::fflush(stdout);
  std::_Exit(3);
}
std::string Num(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += static_cast<unsigned char>(c) < 32 ? ' ' : c;
  }
  return o + "\"";
}

// --- server
struct Err {
  int level;
  std::string msg;
};
std::vector<Err> errs;          // being raised
std::vector<std::string> infos; // of the call in hand
std::string error;
jmp_buf on_error;
bool armed = false;
uint64_t junk = 1;  // what an absent argument holds
}  // namespace
struct MemoryContextData {
  std::vector<void*> chunks;
  std::vector<MemoryContextCallback*> cbs;
  void Reset() {
    while (!cbs.empty()) {
      auto* c = cbs.back();
      cbs.pop_back();
      c->func(c->arg);
    }
    for (void* p : chunks) std::free(p);
    chunks.clear();
  }
};
namespace {
std::map<std::string, MemoryContextData> contexts;  // per query and group
MemoryContextData per_call;
MemoryContext current = &per_call;
struct CallKind {
  int kind;
  MemoryContext context;
};
}  // namespace

extern "C" {
int RAND_bytes(unsigned char* buf, int num) {
  for (int i = 0; i < num; i += 8) {
    uint64_t w = Mix(seed * 0x100000001b3ULL + draws++);
    std::memcpy(buf + i, &w, std::min(8, num - i));
  }
  return 1;
}
void pgsim_err_start(int level) { errs.push_back({level, ""}); }
int errcode(int) { return 0; }
static int Msg(const char* fmt, va_list ap) {
  char b[2000];
  std::vsnprintf(b, sizeof b, fmt, ap);
  errs.back().msg += b;
  return 0;
}
#define MSG_FN(name)                   \
  int name(const char* fmt, ...) {     \
    va_list ap;                        \
    va_start(ap, fmt);                 \
    int r = Msg(fmt, ap);              \
    va_end(ap);                        \
    return r;                          \
  }
MSG_FN(errmsg)
MSG_FN(errmsg_internal)
MSG_FN(errdetail)
MSG_FN(errhint)
void pgsim_err_finish(void) {
  Err e = errs.back();
  errs.pop_back();
  if (e.level < ERROR) {
    infos.push_back(e.msg);
    return;
  }
  error = e.msg;
  if (!armed) std::abort();
  longjmp(on_error, 1);
}
void* MemoryContextAlloc(MemoryContext c, Size n) {
  void* p = std::malloc(n ? n : 1);
  c->chunks.push_back(p);
  return p;
}
void* MemoryContextAllocZero(MemoryContext c, Size n) {
  return std::memset(MemoryContextAlloc(c, n), 0, n);
}
void MemoryContextRegisterResetCallback(MemoryContext c, MemoryContextCallback* cb) {
  c->cbs.push_back(cb);
}
MemoryContext MemoryContextSwitchTo(MemoryContext c) {
  MemoryContext old = current;
  current = c;
  return old;
}
void* palloc(Size n) { return MemoryContextAlloc(current, n); }
void* palloc0(Size n) { return MemoryContextAllocZero(current, n); }
void pfree(void*) {}
int AggCheckCallContext(FunctionCallInfo fcinfo, MemoryContext* aggcontext) {
  auto* k = static_cast<CallKind*>(fcinfo->context);
  if (aggcontext) *aggcontext = k->kind ? k->context : nullptr;
  return k->kind;
}
}

namespace {
struct State {
  Datum value = 0;
  bool isnull = true;
};
std::map<std::string, State> states;
std::set<std::string> aborted;  // queries an error has ended
std::map<std::string, std::unique_ptr<dp::Algorithm<double>>> algs;

double D(const std::string& s) {
  if (s == "nan") return std::nan("");
  if (s == "inf") return HUGE_VAL;
  if (s == "-inf") return -HUGE_VAL;
  return std::strtod(s.c_str(), nullptr);
}
NullableDatum Arg(const std::string& a) {
  NullableDatum d{0, false};
  std::string v = a.size() > 2 ? a.substr(2) : "";
  switch (a[0]) {
    case 'n':
      junk = Mix(junk);
      return {static_cast<Datum>(junk), true};
    case 'd': d.value = Float8GetDatum(D(v)); break;
    case 'l': d.value = Int64GetDatum(std::stoll(v)); break;
    case 'i': d.value = Int32GetDatum(std::stoll(v)); break;
    case 's': d.value = Int16GetDatum(std::stoll(v)); break;
    case 'p': d.value = PointerGetDatum("some text"); break;
    default: Harness("argument " + a);
  }
  return d;
}

std::string Call(const std::string& state, const std::string& sym, int kind,
                 const std::string& ctx, const std::vector<std::string>& args,
                 const std::string& ret) {
  std::string query = ctx.substr(0, ctx.find('.'));
  if (aborted.count(query)) return "\"skipped\":1";
  using Fn = Datum (*)(FunctionCallInfo);
  auto fn = reinterpret_cast<Fn>(dlsym(RTLD_DEFAULT, sym.c_str()));
  if (!fn || !dlsym(RTLD_DEFAULT, ("pg_finfo_" + sym).c_str())) {
    return "\"missing\":" + Quote(sym);
  }
  State& st = states[state];
  FunctionCallInfoBaseData fc;
  std::memset(&fc, 0, sizeof fc);
  FmgrInfo info{nullptr};
  CallKind k{kind, &contexts[ctx]};
  fc.flinfo = &info;
  fc.context = &k;
  for (auto& a : fc.args) a = Arg("n");
  fc.args[0].isnull = st.isnull;
  if (!st.isnull) fc.args[0].value = st.value;
  fc.nargs = 1 + args.size();
  for (size_t i = 0; i < args.size(); ++i) fc.args[i + 1] = Arg(args[i]);
  infos.clear();
  error.clear();
  std::string out;
  armed = true;
  if (setjmp(on_error) == 0) {
    Datum d = fn(&fc);
    armed = false;
    if (ret.empty()) {
      st.value = d;
      st.isnull = fc.isnull;
      out = "\"null\":" + std::string(fc.isnull ? "1" : "0");
    } else if (fc.isnull) {
      out = "\"null\":1";
    } else if (ret == "double") {
      out = "\"v\":" + Num(DatumGetFloat8(d));
    } else {
      out = "\"v\":" + std::to_string(DatumGetInt64(d));
    }
  } else {
    armed = false;
    errs.clear();
    aborted.insert(query);
    out = "\"error\":" + Quote(error);
  }
  current = &per_call;
  per_call.Reset();
  out += ",\"info\":" + std::to_string(infos.size());
  return out;
}

template <typename B>
std::string Keep(const std::string& name, B& b) {
  auto a = b.Build();
  if (!a.ok()) return "\"error\":" + Quote(std::string(a.status().message()));
  algs[name] = std::move(a.value());
  return "\"ok\":1";
}
template <typename A>
std::string Make(const std::string& name, double eps, bool bounds, double lo, double hi) {
  typename A::Builder b;
  b.SetEpsilon(eps);
  if (bounds) b.SetLower(lo).SetUpper(hi);
  return Keep(name, b);
}

std::string Op(const std::string& line) {
  std::istringstream in(line);
  std::string op, name;
  in >> op >> name;
  auto rest = [&in]() {
    std::vector<std::string> v;
    std::string s;
    while (in >> s) v.push_back(s);
    return v;
  };
  if (op == "seed") {
    seed = std::stoull(name);
    return "\"ok\":1";
  }
  if (op == "accum" || op == "extract") {
    std::string sym, ctx, ret;
    int kind;
    in >> sym >> kind >> ctx;
    if (op == "extract") in >> ret;
    return Call(name, sym, kind, ctx, rest(), ret);
  }
  if (op == "forget") {
    states.erase(name);
    return "\"ok\":1";
  }
  if (op == "reset") {
    contexts[name].Reset();
    return "\"ok\":1";
  }
  if (op == "omake") {
    std::string kind;
    double eps;
    int bounds;
    std::string lo, hi, pct;
    in >> kind >> eps >> bounds >> lo >> hi >> pct;
    double l = D(lo), h = D(hi);
    if (kind == "count") {
      dp::Count<double>::Builder b;
      b.SetEpsilon(eps);
      return Keep(name, b);
    }
    if (kind == "sum") return Make<dp::BoundedSum<double>>(name, eps, bounds, l, h);
    if (kind == "avg") return Make<dp::BoundedMean<double>>(name, eps, bounds, l, h);
    if (kind == "var") return Make<dp::BoundedVariance<double>>(name, eps, bounds, l, h);
    if (kind == "stddev") {
      return Make<dp::BoundedStandardDeviation<double>>(name, eps, bounds, l, h);
    }
    if (kind == "ntile") {
      dp::continuous::Percentile<double>::Builder b;
      b.SetPercentile(D(pct)).SetEpsilon(eps).SetLower(l).SetUpper(h);
      return Keep(name, b);
    }
    Harness("kind " + kind);
  }
  if (op == "oadd") {
    std::string v;
    in >> v;
    algs.at(name)->AddEntry(D(v));
    return "\"ok\":1";
  }
  if (op == "ores") {
    auto r = algs.at(name)->PartialResult();
    if (!r.ok()) return "\"error\":" + Quote(std::string(r.status().message()));
    const auto& e = r.value().elements(0).value();
    if (e.value_case() == dp::ValueType::kIntValue) {
      return "\"v\":" + Num(static_cast<double>(e.int_value()));
    }
    return "\"v\":" + Num(e.float_value());
  }
  Harness("op " + op);
}

void Child(const std::vector<std::string>& lines, int seconds) {
  alarm(seconds);
  for (const auto& l : lines) {
    std::printf("{%s}\n", Op(l).c_str());
    std::fflush(stdout);
  }
}
}  // namespace

int main() {
  std::string head;
  std::setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  while (std::getline(std::cin, head)) {
    std::istringstream in(head);
    int n = 0, seconds = 60;
    in >> n >> seconds;
    std::vector<std::string> lines(n);
    for (auto& l : lines) {
      if (!std::getline(std::cin, l)) return 1;
    }
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 1;
    if (pid == 0) {
      try {
        Child(lines, seconds);
      } catch (const std::exception& e) {
        std::fflush(stdout);
        std::_Exit(4);
      }
      std::fflush(stdout);
      std::_Exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
      std::printf("{\"end\":\"signal\",\"n\":%d}\n", WTERMSIG(status));
    } else {
      std::printf("{\"end\":\"exit\",\"n\":%d}\n", WEXITSTATUS(status));
    }
    std::fflush(stdout);
  }
  return 0;
}
