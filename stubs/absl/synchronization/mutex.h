#pragma once
#define MutexLock MutexLockByPointer
#define ReaderMutexLock ReaderMutexLockByPointer
#define WriterMutexLock WriterMutexLockByPointer
#include_next "absl/synchronization/mutex.h"
#undef MutexLock
#undef ReaderMutexLock
#undef WriterMutexLock
namespace absl {
class ABSL_SCOPED_LOCKABLE MutexLock { public: explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m); explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m); MutexLock(Mutex&, const Condition&) ; ~MutexLock() ABSL_UNLOCK_FUNCTION(); };
class ABSL_SCOPED_LOCKABLE ReaderMutexLock { public: explicit ReaderMutexLock(Mutex* m) ABSL_SHARED_LOCK_FUNCTION(m); explicit ReaderMutexLock(Mutex& m) ABSL_SHARED_LOCK_FUNCTION(m); ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION(); };
class ABSL_SCOPED_LOCKABLE WriterMutexLock { public: explicit WriterMutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m); explicit WriterMutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m); ~WriterMutexLock() ABSL_UNLOCK_FUNCTION(); };
}
