// The simulated mutex the staged rand.{h,cc} uses in place of absl::Mutex, and
// the cooperative scheduler behind it.
#ifndef VERIF_SIMMX_H_
#define VERIF_SIMMX_H_
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
namespace simmx {
void Yield();                  // a scheduling point
void Block(const void* what);  // switch away until `what` may be free
int Current();
class ABSL_LOCKABLE Mutex {
 public:
  constexpr Mutex() {}
  constexpr explicit Mutex(absl::ConstInitType) {}
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION();
  void Unlock() ABSL_UNLOCK_FUNCTION();
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION();
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION();
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true);
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
  void lock_shared() ABSL_SHARED_LOCK_FUNCTION() { ReaderLock(); }
  void unlock_shared() ABSL_UNLOCK_FUNCTION() { ReaderUnlock(); }
 private:
  bool held_ = false;
  int readers_ = 0;
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m_->ReaderLock(); }
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { m_->ReaderUnlock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
 private:
  Mutex* m_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION() {
    if (m_) m_->Unlock();
  }
  void Release() ABSL_UNLOCK_FUNCTION() {
    m_->Unlock();
    m_ = nullptr;
  }
 private:
  Mutex* m_;
};
}  // namespace simmx
#endif
