// See sched.hpp.  This file is never compiled with -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vs {

enum Op { RUN, LOCK, JOIN, CONDW, COND_TIMED, PRED, GUARD, RDLOCK, WRLOCK, ONCE };

struct Th {
  int id;
  sem_t sem;
  Op op = RUN;
  void* obj = nullptr;
  bool finished = false, quiet = false, detached = false;
  bool signaled = false;          // for CONDW
  pthread_t real;
  int prio = 0;
  const std::function<bool()>* pred = nullptr;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  char* slo = nullptr; char* shi = nullptr;
};

struct Mx { Th* owner = nullptr; int count = 0; bool dead = false; };
struct Rw { Th* writer = nullptr; int readers = 0; };

static Config cfg;
static Shared* sh = nullptr;
static bool active = false;
static std::vector<Th*>* ths;
static std::map<void*, Mx>* mxs;
static std::map<void*, Rw>* rws;
static std::map<void*, std::vector<Th*>>* cvs;      // waiters
static std::map<void*, int>* guards;
static std::vector<std::pair<const char*, size_t>>* tracked;
static std::vector<std::pair<const char*, size_t>>* deads;
static thread_local Th* me __attribute__((tls_model("initial-exec"))) = nullptr;
static uint64_t rngState;
static long steps = 0;
static std::vector<long>* changePoints;
static int lowPrio = -1;
static bool deciding = false;     // predicates are being evaluated

static uint64_t rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState * 2685821657736338717ULL >> 11; }

static void endRun(int status, const char* why) {
  sh->status = status;
  if (why && sh->tlen + 300 < Shared::MAXT) sh->tlen += snprintf(sh->text + sh->tlen, 299, "{\"k\":\"abort\",\"op\":\"%s\"}\n", why);
  _exit(0);
}

void log(const std::string& s) {
  if (sh->tlen + (long)s.size() + 2 >= Shared::MAXT) endRun(2, "trace overflow");
  memcpy(sh->text + sh->tlen, s.data(), s.size());
  sh->tlen += s.size();
  sh->text[sh->tlen++] = '\n';
}

static bool enabled(Th* t) {
  if (t->finished) return false;
  switch (t->op) {
    case RUN: case COND_TIMED: return true;
    case LOCK: { Mx& m = (*mxs)[t->obj]; return !m.owner; }
    case JOIN: return ((Th*)t->obj)->finished;
    case CONDW: return t->signaled || cfg.spurious;
    case PRED: return (*t->pred)();
    case GUARD: return (*guards)[t->obj] != 1;
    case ONCE: return (*guards)[t->obj] != 1;
    case RDLOCK: return !(*rws)[t->obj].writer;
    case WRLOCK: return !(*rws)[t->obj].writer && !(*rws)[t->obj].readers;
  }
  return true;
}

static void resume(Th* t) { sem_post(&t->sem); }
static void sleepHere(Th* t) { while (sem_wait(&t->sem) != 0) {} }

// one of n alternatives; cur: index of the running thread or -1
static int choose(int n, int cur) {
  if (n <= 1) return 0;
  int c = 0;
  long k = sh->nchoice;
  switch (cfg.mode) {
    case Config::FIRST: c = cur >= 0 ? cur : 0; break;
    case Config::PREFIX: c = k < (long)cfg.prefix.size() ? (cfg.prefix[k] < n ? cfg.prefix[k] : n - 1) : (cur >= 0 ? cur : 0); break;
    case Config::RANDOM:
      if (cur >= 0 && (int)(rnd() % 1000) >= cfg.switchPerMille) c = cur;
      else c = rnd() % n;
      break;
    case Config::PCT: c = rnd() % n; break;   // only for choices that are not about threads
  }
  if (k < Shared::MAXC) { sh->n[k] = n > 250 ? 250 : n; sh->c[k] = c; sh->cur[k] = cur < 0 ? 255 : cur; sh->nchoice++; }
  return c;
}

// decides who runs next; returns it (never null)
static Th* pick() {
  if (++steps > cfg.maxSteps) endRun(2, "hang");
  Th* en[256]; int n = 0, cur = -1;
  deciding = true;
  for (Th* t : *ths) if (enabled(t)) { if (t == me) cur = n; en[n++] = t; }
  deciding = false;
  if (n == 0) endRun(1, "deadlock");
  if (cfg.mode == Config::PCT) {
    if (steps > 50 * (long)cfg.steps + 5000) return en[rnd() % n];   // starving a spinning loop: go on fairly
    for (long cp : *changePoints) if (cp == steps && me) me->prio = lowPrio--;
    Th* b = en[0];
    for (int i = 1; i < n; i++) if (en[i]->prio > b->prio) b = en[i];
    return b;
  }
  return en[choose(n, cur)];
}

// announces the operation of the calling thread and returns when it was chosen (and is enabled)
static void yieldOp(Op op, void* obj) {
  Th* t = me;
  t->op = op; t->obj = obj;
  Th* nx = pick();
  if (nx != t) { resume(nx); sleepHere(t); }
  t->op = RUN;
}

void point() { if (active && me && !me->finished) yieldOp(RUN, nullptr); }
void waitFor(const std::function<bool()>& p) { if (active && me) { me->pred = &p; yieldOp(PRED, nullptr); } }
int self() { return me ? me->id : 0; }
void setQuiet(bool q) { if (me) me->quiet = q; }
bool quiet() { return me ? me->quiet : true; }
void track(const void* p, size_t n) { tracked->push_back({(const char*)p, n}); }
void dead(const void* p, size_t n) { deads->push_back({(const char*)p, n}); }

static bool inside(const std::vector<std::pair<const char*, size_t>>& v, const void* p) {
  for (auto& r : v) if ((const char*)p >= r.first && (const char*)p < r.first + r.second) return true;
  return false;
}
static inline bool on() { return active && me && !me->finished; }
static void checkDead(const void* p) { if (!deads->empty() && inside(*deads, p)) endRun(4, "touched after destruction"); }

extern "C" void vs_access(const void* p) {
  if (!on() || deciding) return;
  checkDead(p);
  if (me->quiet || !cfg.accesses) return;
  if ((char*)p >= me->slo && (char*)p < me->shi) return;
  if (cfg.trackedOnly && !inside(*tracked, p)) return;
  yieldOp(RUN, nullptr);
}

static void stackOf(Th* t) {
  pthread_attr_t a; void* b; size_t s;
  if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &b, &s); t->slo = (char*)b; t->shi = (char*)b + s; pthread_attr_destroy(&a); }
}

static Th* newTh() {
  Th* t = new Th;
  t->id = ths->size();
  sem_init(&t->sem, 0, 0);
  t->prio = (int)(rnd() % 1000000) + 1;
  ths->push_back(t);
  if (ths->size() > 200) endRun(2, "too many threads");
  return t;
}

static void onCrash(int) { endRun(3, "crash"); }
static void onTerm() { endRun(3, "terminate"); }

Shared* makeShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return (Shared*)p;
}

void runForked(const Config& c, Shared* s, const std::function<void()>& body) {
  s->status = 3; s->nchoice = 0; s->tlen = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr);
    cfg = c; sh = s;
    rngState = c.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; if (!rngState) rngState = 1;
    for (int i = 0; i < 5; i++) rnd();
    ths = new std::vector<Th*>; mxs = new std::map<void*, Mx>; rws = new std::map<void*, Rw>; cvs = new std::map<void*, std::vector<Th*>>;
    guards = new std::map<void*, int>; tracked = new std::vector<std::pair<const char*, size_t>>; deads = new std::vector<std::pair<const char*, size_t>>;
    changePoints = new std::vector<long>;
    for (int i = 0; i < c.depth; i++) changePoints->push_back(1 + rnd() % (c.steps > 0 ? c.steps : 1));
    for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) {
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sigaction(sg, &sa, nullptr);
    }
    std::set_terminate(onTerm);
    alarm(60);
    me = newTh(); stackOf(me); me->quiet = true;
    active = true;
    body();
    sh->status = 0;
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    s->status = 3;
    if (s->tlen + 100 < Shared::MAXT) s->tlen += sprintf(s->text + s->tlen, "{\"k\":\"abort\",\"op\":\"%s\"}\n", WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash");
  } else if (s->status == 3 && (s->tlen == 0 || !strstr(s->text + (s->tlen > 300 ? s->tlen - 300 : 0), "abort")) && s->tlen + 100 < Shared::MAXT)
    s->tlen += sprintf(s->text + s->tlen, "{\"k\":\"abort\",\"op\":\"exit\"}\n");
}

// ------------------------------------------------------------------ threads
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static void finishThread(Th* t) {
  t->finished = true;
  bool any = false;
  for (Th* x : *ths) if (!x->finished) any = true;
  if (!any) return;
  Th* nx = pick();
  resume(nx);
}
static void* tramp(void* p) {
  Th* t = (Th*)p;
  me = t;
  sleepHere(t);
  stackOf(t);
  try { t->ret = t->fn(t->arg); }
  catch (...) { endRun(3, "terminate"); }   // also forced unwinding, not used here
  finishThread(t);
  return t->ret;
}
static Th* find(pthread_t p) { for (Th* t : *ths) if (pthread_equal(t->real, p)) return t; return nullptr; }

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!on()) return r(th, a, fn, arg);
  Th* t = newTh();
  t->fn = fn; t->arg = arg;
  int rc = r(&t->real, a, tramp, t);
  if (rc) endRun(2, "thread creation failed");
  *th = t->real;
  yieldOp(RUN, nullptr);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  auto r = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!on()) return r(p, ret);
  Th* t = find(p);
  if (!t) return ESRCH;
  yieldOp(JOIN, t);
  if (ret) *ret = t->ret;
  return 0;   // the real thread is left alone
}
int pthread_detach(pthread_t) { return 0; }

// ------------------------------------------------------------------ mutexes
static int mlock(pthread_mutex_t* m) {
  checkDead(m);
  Mx& x = (*mxs)[m];
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (x.owner == me && rec) { x.count++; return 0; }
  if (x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
  yieldOp(LOCK, m);
  checkDead(m);
  Mx& y = (*mxs)[m];
  y.owner = me; y.count = 1;
  return 0;
}
static int munlock(pthread_mutex_t* m, bool pt) {
  checkDead(m);
  Mx& x = (*mxs)[m];
  if (x.owner != me) { if (!x.owner && sh->nchoice == 0) return 0; endRun(4, "unlock of a mutex not held"); }
  if (--x.count > 0) return 0;
  x.owner = nullptr;
  if (pt) yieldOp(RUN, nullptr);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
  static auto r = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
  if (active && mxs) mxs->erase(m);
  return r(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (on()) {
    auto i = mxs->find(m);
    if (i != mxs->end()) { if (i->second.owner) endRun(4, "destruction of a locked mutex"); mxs->erase(i); }
  }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return on() ? mlock(m) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!on()) return 0;
  checkDead(m);
  yieldOp(RUN, nullptr);
  Mx& x = (*mxs)[m];
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (x.owner && !(x.owner == me && rec)) return EBUSY;
  x.owner = me; x.count++;
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept {
  if (!on()) return 0;
  return pthread_mutex_trylock(m) == 0 ? 0 : ETIMEDOUT;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return on() ? munlock(m, true) : 0; }

// ------------------------------------------------------------- conditions
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { if (active && cvs) cvs->erase(c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (on()) { auto i = cvs->find(c); if (i != cvs->end()) { if (!i->second.empty()) endRun(4, "destruction of a condition with waiters"); cvs->erase(i); } }
  return 0;
}
static void leave(pthread_cond_t* c, Th* t) {
  auto& v = (*cvs)[c];
  for (size_t i = 0; i < v.size(); i++) if (v[i] == t) { v.erase(v.begin() + i); return; }
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  checkDead(c);
  Th* t = me;
  (*cvs)[c].push_back(t);
  t->signaled = false;
  int cnt = (*mxs)[m].count;
  if ((*mxs)[m].owner != me) endRun(4, "wait without the mutex");
  (*mxs)[m].owner = nullptr; (*mxs)[m].count = 0;
  yieldOp(timed ? COND_TIMED : CONDW, c);
  bool got = t->signaled;
  leave(c, t);
  yieldOp(LOCK, m);
  checkDead(m);
  (*mxs)[m].owner = t; (*mxs)[m].count = cnt;
  return timed && !got ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on() ? cwait(c, m, false) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return on() ? cwait(c, m, true) : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return on() ? cwait(c, m, true) : ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (!on()) return 0;
  checkDead(c);
  yieldOp(RUN, nullptr);
  std::vector<Th*> w;
  for (Th* t : (*cvs)[c]) if (!t->signaled) w.push_back(t);
  if (!w.empty()) w[choose(w.size(), -1)]->signaled = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (!on()) return 0;
  checkDead(c);
  yieldOp(RUN, nullptr);
  for (Th* t : (*cvs)[c]) t->signaled = true;
  return 0;
}

// -------------------------------------------------------------- rwlocks, once
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (!on()) return 0; checkDead(l); yieldOp(RDLOCK, l); (*rws)[l].readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (!on()) return 0; checkDead(l); yieldOp(WRLOCK, l); (*rws)[l].writer = me; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!on()) return 0; yieldOp(RUN, nullptr); if ((*rws)[l].writer) return EBUSY; (*rws)[l].readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!on()) return 0; yieldOp(RUN, nullptr); Rw& r = (*rws)[l]; if (r.writer || r.readers) return EBUSY; r.writer = me; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { if (!on()) return 0; checkDead(l); Rw& r = (*rws)[l]; if (r.writer == me) r.writer = nullptr; else r.readers--; yieldOp(RUN, nullptr); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept { if (on()) rws->erase(l); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!on()) { if (*(volatile int*)o == 0) { *(volatile int*)o = 2; fn(); } return 0; }
  yieldOp(ONCE, o);
  if (*(volatile int*)o == 2) return 0;
  (*guards)[o] = 1;
  fn();
  (*guards)[o] = 0;
  *(volatile int*)o = 2;
  return 0;
}

// function-static initialisation
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* c = (volatile char*)g;
  if (*c) return 0;
  if (!on()) return 1;
  yieldOp(GUARD, g);
  if (*c) return 0;
  (*guards)[g] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) noexcept { *(volatile char*)g = 1; if (on()) (*guards)[g] = 0; }
void __cxa_guard_abort(uint64_t* g) noexcept { if (on()) (*guards)[g] = 0; }

// ------------------------------------------------------------------ time
int sched_yield(void) noexcept { vs::point(); return 0; }
int usleep(useconds_t) { vs::point(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { vs::point(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { vs::point(); return 0; }

// --------------------------------------------- compiler instrumentation hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void* p) { vs_access(p); } void __tsan_write##n(void* p) { vs_access(p); } \
  void __tsan_unaligned_read##n(void* p) { vs_access(p); } void __tsan_unaligned_write##n(void* p) { vs_access(p); } \
  void __tsan_volatile_read##n(void* p) { vs_access(p); } void __tsan_volatile_write##n(void* p) { vs_access(p); } \
  void __tsan_read##n##_pc(void* p, void*) { vs_access(p); } void __tsan_write##n##_pc(void* p, void*) { vs_access(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p, void*) { vs_access(p); }
void __tsan_vptr_read(void** p) { vs_access(p); }
void __tsan_read_range(void* p, unsigned long) { vs_access(p); }
void __tsan_write_range(void* p, unsigned long) { vs_access(p); }
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { vs_access((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { vs_access((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { vs_access((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { vs_access((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { vs_access((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { vs_access((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { vs_access((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { vs_access((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { vs_access((void*)a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { vs_access((void*)a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) { vs_access((void*)a); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}  // extern C
}  // namespace vs
