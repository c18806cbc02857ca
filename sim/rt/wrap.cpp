// Linked into the library under test: routes its uses of clocks, locks, waits,
// threads and memory functions to the simulator (see the --wrap list in
// build.py). Outside of the simulation the real functions are used.
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define PC __builtin_return_address(0)
#define HID __attribute__((visibility("hidden"), no_sanitize("thread")))
extern "C" {
int rt_sim_on();
void* rt_memcpy(void*, const void*, size_t, const void*);
void* rt_memmove(void*, const void*, size_t, const void*);
void* rt_memset(void*, int, size_t, const void*);
int64_t rt_steady_now();
int64_t rt_wall_now();
int rt_guard_acquire(uint8_t*);
void rt_guard_release(uint8_t*);
void rt_guard_abort(uint8_t*);
int rt_mutex_lock(void*, int, int, int64_t);
int rt_mutex_unlock(void*);
int rt_rdlock(void*, int);
int rt_rwunlock(void*);
int rt_cond_wait(void*, void*, int64_t);
int rt_cond_signal(void*, int);
int rt_once(uint8_t*, void (*)());
void rt_sleep_ns(uint64_t);
void rt_yield();
int rt_futex_wait(void*, uint32_t);
int rt_futex_wake(void*, int);
int rt_spawn(void* (*)(void*), void*);
int rt_join(int);

HID void* __wrap_memcpy(void* d, const void* s, size_t n) { return rt_memcpy(d, s, n, PC); }
HID void* __wrap_memmove(void* d, const void* s, size_t n) { return rt_memmove(d, s, n, PC); }
HID void* __wrap_memset(void* d, int c, size_t n) { return rt_memset(d, c, n, PC); }

HID int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return rt_steady_now(); }
HID int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return rt_wall_now(); }
HID int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
                  ? rt_wall_now() : rt_steady_now();
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
HID int __wrap_gettimeofday(struct timeval* tv, void*) {
  int64_t t = rt_wall_now();
  tv->tv_sec = t / 1000000000;
  tv->tv_usec = t % 1000000000 / 1000;
  return 0;
}
HID time_t __wrap_time(time_t* p) {
  time_t t = rt_wall_now() / 1000000000;
  if (p) *p = t;
  return t;
}
HID clock_t __wrap_clock() { return rt_steady_now() / 1000; }

HID int __wrap___cxa_guard_acquire(uint8_t* g) { return rt_guard_acquire(g); }
HID void __wrap___cxa_guard_release(uint8_t* g) { rt_guard_release(g); }
HID void __wrap___cxa_guard_abort(uint8_t* g) { rt_guard_abort(g); }

static inline int rec(pthread_mutex_t* m) {
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
HID int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  return rt_sim_on() ? rt_mutex_lock(m, rec(m), 0, -1) : __real_pthread_mutex_lock(m);
}
HID int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  return rt_sim_on() ? rt_mutex_lock(m, rec(m), 1, -1) : __real_pthread_mutex_trylock(m);
}
HID int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  return rt_sim_on() ? rt_mutex_unlock(m) : __real_pthread_mutex_unlock(m);
}
static int64_t dl(const struct timespec* ts, clockid_t id) {
  int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (id == CLOCK_REALTIME) t = rt_steady_now() + (t - rt_wall_now());
  return t < 0 ? 0 : t;
}
HID int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  return rt_mutex_lock(m, rec(m), 0, dl(ts, CLOCK_REALTIME));
}
HID int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  return rt_mutex_lock(m, rec(m), 0, dl(ts, id));
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
HID int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  return rt_sim_on() ? rt_rdlock(m, 0) : __real_pthread_rwlock_rdlock(m);
}
HID int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  return rt_sim_on() ? rt_mutex_lock(m, 0, 0, -1) : __real_pthread_rwlock_wrlock(m);
}
HID int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rt_rdlock(m, 1); }
HID int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return rt_mutex_lock(m, 0, 1, -1); }
HID int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  return rt_sim_on() ? rt_rwunlock(m) : __real_pthread_rwlock_unlock(m);
}
HID int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return rt_cond_wait(c, m, -1); }
HID int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  return rt_cond_wait(c, m, dl(ts, CLOCK_REALTIME));
}
HID int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  return rt_cond_wait(c, m, dl(ts, id));
}
HID int __wrap_pthread_cond_signal(pthread_cond_t* c) { return rt_cond_signal(c, 0); }
HID int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return rt_cond_signal(c, 1); }
// std::condition_variable's out-of-line members
struct CvLock { pthread_mutex_t* m; bool owns; };
HID void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, CvLock* l) { rt_cond_wait(c, l->m, -1); }
HID void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { rt_cond_signal(c, 0); }
HID void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { rt_cond_signal(c, 1); }

HID int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { return rt_once((uint8_t*)o, f); }

HID int __wrap_nanosleep(const struct timespec* ts, struct timespec*) {
  rt_sleep_ns(ts->tv_sec * 1000000000ull + ts->tv_nsec);
  return 0;
}
HID int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec*) {
  int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (flags) t -= id == CLOCK_REALTIME ? rt_wall_now() : rt_steady_now();
  rt_sleep_ns(t < 0 ? 0 : t);
  return 0;
}
HID int __wrap_usleep(useconds_t us) { rt_sleep_ns(us * 1000ull); return 0; }
HID unsigned __wrap_sleep(unsigned s) { rt_sleep_ns(s * 1000000000ull); return 0; }
HID int __wrap_sched_yield() { rt_yield(); return 0; }

long __real_syscall(long, ...);
HID long __wrap_syscall(long no, ...) {
  va_list ap;
  va_start(ap, no);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (no == SYS_futex && rt_sim_on()) {
    int op = a[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) return rt_futex_wait((void*)a[0], (uint32_t)a[2]);
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return rt_futex_wake((void*)a[0], (int)a[2]);
  }
  return __real_syscall(no, a[0], a[1], a[2], a[3], a[4], a[5]);
}

int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
HID int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  if (!rt_sim_on()) return __real_pthread_create(t, at, f, a);
  *t = (pthread_t)(0x51000000ul + rt_spawn(f, a));
  return 0;
}
HID int __wrap_pthread_join(pthread_t t, void** r) {
  if (r) *r = nullptr;
  return rt_join((int)(t - 0x51000000ul));
}
HID int __wrap_pthread_detach(pthread_t) { return 0; }
// std::thread's out-of-line members
struct ThreadState {
  virtual ~ThreadState();
  virtual void run();
};
static void* runState(void* p) {
  ThreadState* s = (ThreadState*)p;
  s->run();
  delete s;
  return nullptr;
}
HID void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    unsigned long* id, void** st, void (*)()) {
  void* s = *st;
  *st = nullptr;
  *id = 0x51000000ul + rt_spawn(runState, s);
}
HID void __wrap__ZNSt6thread4joinEv(unsigned long* id) {
  rt_join((int)(*id - 0x51000000ul));
  *id = 0;
}
HID void __wrap__ZNSt6thread6detachEv(unsigned long* id) { *id = 0; }
}
