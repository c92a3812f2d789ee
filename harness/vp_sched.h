// Runs several threads under a chosen schedule. Points where a thread can be
// stopped: the start of an operation, every call into the crypto library,
// every mutex operation, every callback. In mode "ctl" one thread runs at a
// time; PLAN is a list of T*N ("thread T for N points"); after the plan the
// running thread goes on. In mode "free" the threads run freely with random
// pauses at the points.
#ifndef HARNESS_SCHED_H_
#define HARNESS_SCHED_H_
#include "common.h"
#include <cerrno>
#include <pthread.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "absl/synchronization/mutex.h"
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#define ACQ(m) __tsan_acquire(m)
#define REL(m) __tsan_release(m)
#else
#define ACQ(m)
#define REL(m)
#endif
namespace sched {
enum { READY, BLOCKED, DONE };
static std::mutex g_m;
static std::condition_variable g_cv;
static int g_cur = -1;
static std::vector<int> g_st;
static std::vector<std::pair<int, int>> g_plan;
static size_t g_pi = 0;
static int g_used = 0;
static uint64_t g_progress = 0;
static std::atomic<int> g_mode{0};   // 0 off, 1 ctl, 2 free
static std::atomic<int> g_clock{0};
static std::atomic<long> g_points{0};
static thread_local int t_id = -1;
static thread_local uint64_t t_rng = 1;
inline int Stamp() { return g_clock.fetch_add(1, std::memory_order_relaxed) + 1; }
// g_m is held
inline int Pick(int self) {
  while (g_pi < g_plan.size()) {
    auto& p = g_plan[g_pi];
    if (g_used >= p.second || p.first >= (int)g_st.size() || g_st[p.first] == DONE) { g_pi++; g_used = 0; continue; }
    if (g_st[p.first] == READY) return p.first;
    break;   // its turn, but it waits for a lock: someone else must go on
  }
  if (self >= 0 && g_st[self] == READY) return self;
  for (size_t i = 0; i < g_st.size(); i++) if (g_st[i] == READY) return i;
  return -1;
}
inline void WaitTurn(std::unique_lock<std::mutex>& lk) {
  uint64_t last = g_progress;
  int idle = 0;
  while (g_cur != t_id) {
    g_cv.wait_for(lk, std::chrono::milliseconds(20));
    if (g_cur == t_id) break;
    if (g_progress != last) { last = g_progress; idle = 0; }
    // the running thread waits for something we do not control
    else if (++idle > 40 && g_st[t_id] == READY) { g_cur = t_id; g_progress++; g_cv.notify_all(); }
  }
}
inline void Switch(std::unique_lock<std::mutex>& lk, int n) {
  if (n < 0) { fprintf(stderr, "deadlock\n"); _exit(99); }
  if (n == t_id) return;
  g_cur = n;
  g_cv.notify_all();
  WaitTurn(lk);
}
inline void Point() {
  if (t_id < 0) return;
  int m = g_mode.load(std::memory_order_relaxed);
  g_points.fetch_add(1, std::memory_order_relaxed);
  if (m == 2) {
    t_rng = t_rng * 6364136223846793005ull + 1442695040888963407ull;
    unsigned x = (t_rng >> 33) % 16;
    if (x == 0) sched_yield();
    else if (x == 1) for (volatile int i = 0; i < 3000; i = i + 1) {}
    else if (x == 2 && (t_rng >> 40) % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(60));
    return;
  }
  if (m != 1) return;
  std::unique_lock<std::mutex> lk(g_m);
  if (g_cur != t_id) WaitTurn(lk);
  g_progress++;
  if (g_pi < g_plan.size() && g_plan[g_pi].first == t_id) g_used++;
  Switch(lk, Pick(t_id));
}
// the lock m is not free: let someone else run
inline void Blocked() {
  std::unique_lock<std::mutex> lk(g_m);
  g_st[t_id] = BLOCKED;
  g_progress++;
  int n = Pick(-1);
  Switch(lk, n);
}
inline void Unlocked() {
  std::unique_lock<std::mutex> lk(g_m);
  for (auto& s : g_st) if (s == BLOCKED) s = READY;
}
struct Timed { int inv, res; };
// bodies[t] is what thread t does
inline void Run(const std::string& mode, const std::string& plan, uint64_t seed, std::vector<std::function<void()>> bodies) {
  g_plan.clear(); g_pi = 0; g_used = 0; g_clock = 0; g_points = 0;
  g_st.assign(bodies.size(), READY);
  std::stringstream ss(plan);
  std::string w;
  while (std::getline(ss, w, ',')) { int a = 0, b = 1; if (sscanf(w.c_str(), "%d*%d", &a, &b) >= 1) g_plan.push_back({a, b}); }
  g_mode = mode == "ctl" ? 1 : 2;
  static std::atomic<int> ready;
  ready = 0;
  { std::lock_guard<std::mutex> l(g_m); g_cur = -1; }
  std::vector<std::thread> ts;
  for (size_t i = 0; i < bodies.size(); i++)
    ts.emplace_back([&, i]() {
      t_id = (int)i;
      t_rng = seed * 977 + i * 31 + 7;
      if (g_mode == 1) {
        { std::unique_lock<std::mutex> lk(g_m); ready++; while (g_cur != t_id) { g_cv.wait_for(lk, std::chrono::milliseconds(500)); if (g_cur < 0 && false) break; } }
        bodies[i]();
        std::unique_lock<std::mutex> lk(g_m);
        g_st[i] = DONE;
        g_progress++;
        int n = Pick(-1);
        bool all = true;
        for (int s : g_st) if (s != DONE) all = false;
        if (!all && n < 0) { fprintf(stderr, "deadlock\n"); _exit(99); }
        g_cur = n;
        g_cv.notify_all();
      } else {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < (int)bodies.size()) {}
        bodies[i]();
      }
      t_id = -1;
    });
  if (g_mode == 1) {
    while (true) { std::unique_lock<std::mutex> lk(g_m); if (ready == (int)bodies.size()) { g_cur = Pick(-1); g_cv.notify_all(); break; } lk.unlock(); std::this_thread::yield(); }
  }
  for (auto& t : ts) t.join();
  g_mode = 0;
}
}  // namespace sched
#define MX "_ZN4absl7debian35Mutex"
extern "C" {
bool __real__ZN4absl7debian35Mutex7TryLockEv(absl::Mutex*);
void __real__ZN4absl7debian35Mutex4LockEv(absl::Mutex*);
void __real__ZN4absl7debian35Mutex6UnlockEv(absl::Mutex*);
void __real__ZN4absl7debian35Mutex10ReaderLockEv(absl::Mutex*);
void __real__ZN4absl7debian35Mutex12ReaderUnlockEv(absl::Mutex*);
void __wrap__ZN4absl7debian35Mutex4LockEv(absl::Mutex* m) {
  sched::Point();
  if (sched::t_id >= 0 && sched::g_mode == 1) {
    while (!__real__ZN4absl7debian35Mutex7TryLockEv(m)) sched::Blocked();
  } else {
    __real__ZN4absl7debian35Mutex4LockEv(m);
  }
  ACQ(m);
  sched::Point();
}
bool __wrap__ZN4absl7debian35Mutex7TryLockEv(absl::Mutex* m) {
  sched::Point();
  bool r = __real__ZN4absl7debian35Mutex7TryLockEv(m);
  if (r) ACQ(m);
  return r;
}
void __wrap__ZN4absl7debian35Mutex6UnlockEv(absl::Mutex* m) {
  sched::Point();
  REL(m);
  __real__ZN4absl7debian35Mutex6UnlockEv(m);
  if (sched::t_id >= 0 && sched::g_mode == 1) sched::Unlocked();
  sched::Point();
}
void __wrap__ZN4absl7debian35Mutex10ReaderLockEv(absl::Mutex* m) {
  sched::Point();
  if (sched::t_id >= 0 && sched::g_mode == 1) {
    while (!m->ReaderTryLock()) sched::Blocked();
  } else {
    __real__ZN4absl7debian35Mutex10ReaderLockEv(m);
  }
  ACQ(m);
  sched::Point();
}
void __wrap__ZN4absl7debian35Mutex12ReaderUnlockEv(absl::Mutex* m) {
  sched::Point();
  REL(m);
  __real__ZN4absl7debian35Mutex12ReaderUnlockEv(m);
  if (sched::t_id >= 0 && sched::g_mode == 1) sched::Unlocked();
  sched::Point();
}
// std::mutex, std::shared_mutex
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (sched::t_id < 0 || m == sched::g_m.native_handle()) return __real_pthread_mutex_lock(m);
  sched::Point();
  int r;
  if (sched::g_mode == 1) { while ((r = pthread_mutex_trylock(m)) == EBUSY) sched::Blocked(); }
  else r = __real_pthread_mutex_lock(m);
  sched::Point();
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (sched::t_id < 0 || m == sched::g_m.native_handle()) return __real_pthread_mutex_unlock(m);
  sched::Point();
  int r = __real_pthread_mutex_unlock(m);
  if (sched::g_mode == 1) sched::Unlocked();
  sched::Point();
  return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (sched::t_id < 0) return __real_pthread_rwlock_wrlock(m);
  sched::Point();
  int r;
  if (sched::g_mode == 1) { while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sched::Blocked(); }
  else r = __real_pthread_rwlock_wrlock(m);
  sched::Point();
  return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (sched::t_id < 0) return __real_pthread_rwlock_rdlock(m);
  sched::Point();
  int r;
  if (sched::g_mode == 1) { while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sched::Blocked(); }
  else r = __real_pthread_rwlock_rdlock(m);
  sched::Point();
  return r;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (sched::t_id < 0) return __real_pthread_rwlock_unlock(m);
  sched::Point();
  int r = __real_pthread_rwlock_unlock(m);
  if (sched::g_mode == 1) sched::Unlocked();
  sched::Point();
  return r;
}
}
#endif
