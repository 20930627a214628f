// Included before everything else (-include): a stand-in for absl::Mutex on a cooperative scheduler: exactly one
// thread runs at a time, and every attempt to take a lock or to wait for a condition
// hands control to the scheduler, which the test driver controls. The interface is
// absl's (the part that code under test can reasonably use).
#ifndef VERIF_SCHED_MUTEX_H_
#define VERIF_SCHED_MUTEX_H_
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>

// absl itself keeps using its own Mutex: include what uses it first.
#include "absl/synchronization/mutex.h"
#include "absl/functional/any_invocable.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/time/time.h"

namespace vsched {
struct Abort {};
class Scheduler;
struct Worker {
  std::string name;
  std::function<void()> job;
  std::function<bool()> pred;  // may run when true
  bool active = false;
  bool abort = false;
  bool stop = false;
  std::thread th;
};
class Scheduler {
 public:
  static Scheduler& Get() {
    static auto* s = new Scheduler;
    return *s;
  }
  static Worker*& Self() {
    static thread_local Worker* w = nullptr;
    return w;
  }
  Worker* Add(const std::string& name) {
    auto w = std::make_unique<Worker>();
    Worker* p = w.get();
    p->name = name;
    ws_.push_back(std::move(w));
    p->th = std::thread([this, p] { Loop(p); });
    return p;
  }
  void Start(Worker* w, std::function<void()> job) {
    w->job = std::move(job);
    w->pred = nullptr;
    w->active = true;
  }
  // Called by a worker: give up control until pred holds and it is chosen again.
  void Yield(std::function<bool()> pred) {
    Worker* w = Self();
    if (w == nullptr) return;  // the driver itself never waits
    std::unique_lock<std::mutex> l(g_);
    w->pred = std::move(pred);
    cur_ = nullptr;
    cv_.notify_all();
    cv_.wait(l, [&] { return cur_ == w; });
    w->pred = nullptr;
    if (w->abort) throw Abort();
  }
  // Runs workers in an arbitrary order until none can run.
  void Settle(std::mt19937& rng) {
    while (true) {
      std::vector<Worker*> can;
      for (auto& w : ws_)
        if (w->active && (!w->pred || w->pred())) can.push_back(w.get());
      if (can.empty()) return;
      Resume(can[rng() % can.size()]);
    }
  }
  void AbortAll() {
    for (auto& w : ws_)
      if (w->active) {
        w->abort = true;
        Resume(w.get());
        w->abort = false;
        w->active = false;
      }
  }

 private:
  void Resume(Worker* w) {
    std::unique_lock<std::mutex> l(g_);
    cur_ = w;
    cv_.notify_all();
    cv_.wait(l, [&] { return cur_ == nullptr; });
  }
  void Loop(Worker* w) {
    Self() = w;
    while (true) {
      {
        std::unique_lock<std::mutex> l(g_);
        cv_.wait(l, [&] { return cur_ == w; });
      }
      try {
        if (!w->abort) w->job();
      } catch (const Abort&) {
      }
      std::unique_lock<std::mutex> l(g_);
      w->active = false;
      cur_ = nullptr;
      cv_.notify_all();
    }
  }
  std::mutex g_;
  std::condition_variable cv_;
  Worker* cur_ = nullptr;
  std::vector<std::unique_ptr<Worker>> ws_;
};
}  // namespace vsched

#define Condition SchedCondition
#define Mutex SchedMutex
#define MutexLock SchedMutexLock
#define ReaderMutexLock SchedReaderMutexLock
#define WriterMutexLock SchedWriterMutexLock
#define ReleasableMutexLock SchedReleasableMutexLock
#define CondVar SchedCondVar
namespace absl {
class Condition {
 public:
  explicit Condition(const bool* b) : f_([b] { return *b; }) {}
  Condition(bool (*f)(void*), void* a) : f_([f, a] { return f(a); }) {}
  template <typename T>
  Condition(bool (*f)(T*), T* a) : f_([f, a] { return f(a); }) {}
  template <typename T>
  Condition(T* o, bool (T::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <typename T>
  Condition(const T* o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  template <typename T, typename E = decltype(std::declval<const T&>()())>
  explicit Condition(const T* o) : f_([o] { return (*o)(); }) {}
  bool Eval() const { return f_(); }

 private:
  std::function<bool()> f_;
};

class Mutex {
 public:
  Mutex() = default;
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void Lock() { Take([] { return true; }); }
  void lock() { Lock(); }
  bool TryLock() {
    vsched::Scheduler::Get().Yield([] { return true; });
    if (locked_) return false;
    locked_ = true;
    return true;
  }
  bool try_lock() { return TryLock(); }
  void Unlock() { locked_ = false; }
  void unlock() { Unlock(); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock_shared() { Lock(); }
  void unlock_shared() { Unlock(); }
  void LockWhen(const Condition& c) { Take([c] { return c.Eval(); }); }
  void lock_when(const Condition& c) { LockWhen(c); }
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
  void ReaderLockWhen(const Condition& c) { LockWhen(c); }
  void Await(const Condition& c) {
    if (c.Eval()) return;
    locked_ = false;
    Take([c] { return c.Eval(); });
  }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}

 private:
  void Take(std::function<bool()> c) {
    vsched::Scheduler::Get().Yield([this, c] { return !locked_ && c(); });
    locked_ = true;
  }
  bool locked_ = false;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() { m_->Unlock(); }

 private:
  Mutex* m_;
};
using ReaderMutexLock = MutexLock;
using WriterMutexLock = MutexLock;
class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  ReleasableMutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }

 private:
  Mutex* m_;
};
class CondVar {
 public:
  void Wait(Mutex* m) {
    int t = ticket_++;
    m->Unlock();
    vsched::Scheduler::Get().Yield([this, t] { return woken_ > t; });
    m->Lock();
  }
  void Signal() { if (woken_ < ticket_) woken_++; }
  void SignalAll() { woken_ = ticket_; }

 private:
  int ticket_ = 0, woken_ = 0;
};
}  // namespace absl
#endif
