// Stand-in for absl/log/check.h and absl/log/log.h: the installed Abseil
// (20220623) predates them.  CHECK aborts the process as the real one does.
#ifndef VERIF_ABSL_LOG_CHECK_H_
#define VERIF_ABSL_LOG_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
namespace verif_log {
class Fatal {
 public:
  explicit Fatal(const char* what) { s_ << what << " "; }
  ~Fatal() {
    std::fprintf(stderr, "FATAL %s\n", s_.str().c_str());
    std::fflush(stderr);
    std::abort();
  }
  std::ostringstream& stream() { return s_; }
 private:
  std::ostringstream s_;
};
class Null {
 public:
  template <typename T> Null& operator<<(const T&) { return *this; }
};
struct Voidify {
  template <typename T> void operator&&(T&&) const {}
};
inline bool is_ok(bool b) { return b; }
}  // namespace verif_log
#define CHECK(c) \
  (c) ? (void)0 : ::verif_log::Voidify() && ::verif_log::Fatal("CHECK failed: " #c).stream()
#define CHECK_OP_(a, b, op) CHECK((a)op(b))
#define CHECK_EQ(a, b) CHECK_OP_(a, b, ==)
#define CHECK_NE(a, b) CHECK_OP_(a, b, !=)
#define CHECK_LE(a, b) CHECK_OP_(a, b, <=)
#define CHECK_LT(a, b) CHECK_OP_(a, b, <)
#define CHECK_GE(a, b) CHECK_OP_(a, b, >=)
#define CHECK_GT(a, b) CHECK_OP_(a, b, >)
#define CHECK_OK(s) CHECK((s).ok())
// As in an optimised (NDEBUG) build, the debug checks are compiled and not run.
#define DCHECK(c) \
  true ? (void)0 : ::verif_log::Voidify() && ::verif_log::Null() << (c)
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define VERIF_LOG_INFO ::verif_log::Null()
#define VERIF_LOG_WARNING ::verif_log::Null()
#define VERIF_LOG_ERROR ::verif_log::Null()
#define VERIF_LOG_DFATAL ::verif_log::Null()
#define VERIF_LOG_FATAL ::verif_log::Fatal("LOG(FATAL)").stream()
#define LOG(severity) VERIF_LOG_##severity
#define LOG_IF(severity, c) \
  !(c) ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_##severity
#endif
