// Native simulator runtime (see DESIGN.md).
//
// Preloaded into a Python process. An extension module compiled with -fsanitize=thread and linked
// with -Wl,--wrap=... calls into it for every memory access, atomic operation, allocation, lock,
// thread start/join/exit, clock and processor query. Exactly one registered thread runs at a time;
// who runs next is decided here, from one seed or from an explicit list of switches.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <memory>
#include <new>
#include <system_error>
#include <thread>

typedef uint64_t u64;

// ------------------------------------------------------------------ PRNG
static u64 mix(u64 &s) {
  u64 z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------------ state
enum { MAXT = 8192 };
enum Kind { PY = 0, WORKER = 1 };
enum St { UNUSED = 0, READY, BLOCKED, DONE };
enum Why { W_NONE = 0, W_GIL, W_JOIN, W_MUTEX, W_COND, W_RD, W_WR, W_SLEEP, W_ONCE, W_FUTEX, W_REG };

struct Th {
  int id, kind, st, why, parent;
  const void *obj;      // what it waits for
  unsigned val;         // futex value
  bool signaled;        // condition signalled
  int64_t deadline;     // simulated ns, -1: none
  bool timed_out;
  pthread_t handle;
  bool has_handle, detached;
  sem_t sem;
  int depth;            // inside functions of the extension
  bool in_call;         // inside a call marked by sim_call_begin
  u64 prio;
  const char *slo, *shi;  // own stack
  void *arg;
  void *(*cfn)(void *);
  std::thread::_State *state;
  u64 gil_wait_from;    // native steps when it began to wait for the GIL
  u64 max_gil_wait;
  u64 steps;
};

struct Cfg {
  // all 64-bit integers, filled from Python
  int64_t seed, mode;           // mode 0: explicit switches, 1: random, 2: PCT
  int64_t mean;                 // mode 1: mean number of steps between switches
  int64_t conflict_pm;          // probability (per mille) of a switch at a conflicting access
  int64_t depth, length;        // mode 2: number of priority changes, over so many steps
  int64_t ncpu;
  int64_t budget;               // steps
  int64_t heap_fill;            // -1 zero, -2 0xff, else seed of random content
  int64_t heap_shift;           // offset of the arena
  int64_t alloc_from, alloc_to; // fail allocations number from..to-1 (made by the extension)
  int64_t alloc_pm;             // or each with this probability (per mille)
  int64_t alloc_list_n;
  int64_t thr_from, thr_to;     // fail thread starts number from..to-1
  int64_t thr_pm;
  int64_t clock0;               // simulated clock (ns)
  int64_t spurious_pm;          // spurious wake-ups
  int64_t record;               // record switches
  int64_t numpy_faults;         // also count/fail numpy data allocations made by the extension
};

struct Switch { u64 step; int64_t to; };

struct Out {
  int64_t steps, switches, allocs, alloc_failed, thread_starts, thread_failed, worker_steps,
      gil_held_steps, blocked_holding_gil_steps, max_threads, conflicts, hash, clock, deadlock,
      budget_exceeded, leaked, ticks_max_wait, native_calls, wakeups, numpy_allocs, numpy_failed, conflict_pairs,
      spurious, max_wait_in_call;
};

static Cfg C;
static Out O;
static Th T[MAXT];
static int nT = 0;
static Th *cur = 0;
static bool active = false;        // scheduling is on
static Th *gil_owner = 0;
static u64 rngS, rngF, rngX;       // schedule, faults, values
static u64 next_switch;
static int live = 0;
static sem_t done_sem, reg_sem;
static int expected_py = 0, registered_py = 0, finished_py = 0;
static int64_t now_ns;
static __thread Th *self = 0;
static Switch *script = 0;
static int64_t nscript = 0, iscript = 0;
static Switch *rec = 0;
static int64_t nrec = 0;
enum { MAXREC = 4000000 };
static u64 pct_points[64];
static int pct_n = 0, pct_i = 0;

static void say(const char *s) { ssize_t r = write(2, s, strlen(s)); (void)r; }
static void die(const char *s) { say("simrt: "); say(s); say("\n"); _exit(97); }
static char why_buf[4096];

static u64 rnd(u64 &s, u64 n) { return n ? mix(s) % n : 0; }
static u64 geo(u64 mean) {
  // roughly geometric: uniform over a random magnitude around the mean keeps it simple
  if (mean <= 1) return 1;
  u64 a = mix(rngS);
  u64 r = a % 16;
  u64 m = r < 8 ? mean : r < 12 ? mean / 4 + 1 : r < 15 ? mean * 2 : mean * 8;
  return 1 + mix(rngS) % (2 * m);
}

// ------------------------------------------------------------------ address table (conflicts)
struct Ent { u64 key; uint16_t lastw, lastr; uint32_t gen; };
static Ent *tab = 0;
static u64 tab_mask = 0, tab_used = 0;
static uint32_t tab_gen = 1;
static void tab_init() {
  tab_mask = (1u << 20) - 1;
  tab = (Ent *)mmap(0, (tab_mask + 1) * sizeof(Ent), PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (tab == MAP_FAILED) die("mmap table");
}
// true if another thread wrote this word (or read it, and we write) since the number of live
// workers last became positive
static inline bool conflict(const void *a, bool w) {
  if (!tab || tab_used > (tab_mask >> 1)) return false;
  u64 key = ((u64)a >> 3) + 1;
  u64 h = (key * 0x9E3779B97F4A7C15ull) >> 40 & tab_mask;
  while (tab[h].key && tab[h].key != key) h = (h + 1) & tab_mask;
  Ent &e = tab[h];
  uint16_t me = (uint16_t)(self->id + 1);
  if (!e.key) { e.key = key; tab_used++; e.gen = 0; }
  if (e.gen != tab_gen) { e.gen = tab_gen; e.lastw = e.lastr = 0; }
  bool c = (e.lastw && e.lastw != me) || (w && e.lastr && e.lastr != me);
  if (w) e.lastw = me; else if (!e.lastr || e.lastr == me) e.lastr = me; else e.lastr = 0xffff;
  return c;
}

// ------------------------------------------------------------------ mutexes and the like
struct Lk { const void *a; Th *owner; int n; int readers; };
static Lk lk[4096];
static int nlk = 0;
static Lk *find_lk(const void *a, bool make) {
  for (int i = 0; i < nlk; i++) if (lk[i].a == a) return &lk[i];
  if (!make) return 0;
  if (nlk == 4096) die("too many locks held");
  lk[nlk] = Lk{a, 0, 0, 0};
  return &lk[nlk++];
}
static void drop_lk(Lk *l) {
  if (!l->owner && !l->readers) *l = lk[--nlk];
}

// ------------------------------------------------------------------ scheduler
static bool ready(Th *t) {
  if (t->st == READY) return true;
  if (t->st != BLOCKED) return false;
  switch (t->why) {
    case W_GIL: return gil_owner == 0;
    case W_JOIN: return ((Th *)t->obj)->st == DONE;
    case W_MUTEX: { Lk *l = find_lk(t->obj, false); return !l || (!l->owner && !l->readers); }
    case W_WR: { Lk *l = find_lk(t->obj, false); return !l || (!l->owner && !l->readers); }
    case W_RD: { Lk *l = find_lk(t->obj, false); return !l || !l->owner; }
    case W_COND: return t->signaled;
    case W_FUTEX: return *(volatile unsigned *)t->obj != t->val || t->signaled;
    case W_ONCE: return *(volatile int *)t->obj != 1;
    case W_SLEEP: return false;
  }
  return false;
}

static int candidates(Th **c) {
  int n = 0;
  for (int i = 0; i < nT; i++)
    if (ready(&T[i])) c[n++] = &T[i];
  return n;
}

static void finish_report();

static Th *pick(Th *from, bool must) {
  // 'must': from cannot go on. Otherwise a switch is wanted (mode 1/2) or scripted.
  Th *c[MAXT];
  int n = candidates(c);
  if (!n) {
    // nobody can run: let time pass
    int64_t best = -1; Th *bt = 0;
    for (int i = 0; i < nT; i++)
      if (T[i].st == BLOCKED && T[i].deadline >= 0 && (best < 0 || T[i].deadline < best)) { best = T[i].deadline; bt = &T[i]; }
    if (!bt) return 0;
    if (best > now_ns) now_ns = best;
    bt->timed_out = true;
    bt->st = READY;
    return bt;
  }
  if (C.mode == 0) {
    // the script may name the thread to go on with at this step
    while (iscript < nscript && script[iscript].step < (u64)O.steps) iscript++;
    if (iscript < nscript && script[iscript].step == (u64)O.steps) {
      int64_t to = script[iscript].to;
      iscript++;
      for (int i = 0; i < n; i++) if (c[i]->id == to) return c[i];
    }
    if (!must) return from;
    return c[0];
  }
  if (C.mode == 2) {
    Th *b = c[0];
    for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
    return b;
  }
  if (!must && n > 1) {
    // another one
    int k = rnd(rngS, n - 1), j = 0;
    for (int i = 0; i < n; i++) {
      if (c[i] == from) continue;
      if (j++ == k) return c[i];
    }
  }
  return c[rnd(rngS, n)];
}

static void describe() {
  int p = 0;
  for (int i = 0; i < nT && p < 3900; i++) {
    static const char *names[] = {"", "gil", "join", "mutex", "cond", "rdlock", "wrlock", "sleep", "once", "futex", "reg"};
    p += snprintf(why_buf + p, sizeof why_buf - p, "thread %d (%s): %s%s%s; ", T[i].id,
                  T[i].kind == PY ? "caller" : "worker",
                  T[i].st == DONE ? "ended" : T[i].st == BLOCKED ? "waits for " : "runs",
                  T[i].st == BLOCKED ? names[T[i].why] : "", gil_owner == &T[i] ? " holding the GIL" : "");
  }
}

static int result_fd = -1;
static void fatal(int what) {  // deadlock or budget: report and end the process
  describe();
  if (what == 1) O.deadlock = 1; else O.budget_exceeded = 1;
  finish_report();
  if (result_fd >= 0) {
    char b[5000];
    int n = snprintf(b, sizeof b, "{\"fatal\": \"%s\", \"steps\": %ld, \"detail\": \"%s\"}\n",
                     what == 1 ? "deadlock" : "no progress", (long)O.steps, why_buf);
    ssize_t r = write(result_fd, b, n); (void)r;
  }
  _exit(what == 1 ? 91 : 92);
}

static void note_switch(Th *to) {
  O.switches++;
  O.hash = (O.hash ^ (u64)(O.steps * 31 + to->id)) * 0x100000001B3ull;
  if (C.record && rec && nrec < MAXREC) rec[nrec++] = Switch{(u64)O.steps, to->id};
}

static void hand_to(Th *t, Th *to) {
  if (to == t) return;
  cur = to;
  sem_post(&to->sem);
}
static void wait_turn(Th *t) {
  while (sem_wait(&t->sem) != 0) {}
}

// the current thread gives up the processor; 'must' if it cannot go on
static void resched(Th *t, bool must) {
  Th *to = pick(t, must);
  if (!to) fatal(1);
  if (to == t && t->st != BLOCKED) return;
  note_switch(to);
  if (to != t) {
    hand_to(t, to);
    wait_turn(t);
  }
  t->st = READY;
}

static inline void budget_check() {
  if (__builtin_expect(O.steps > C.budget, 0)) fatal(2);
}

static void block(Th *t, int why, const void *obj, int64_t deadline = -1) {
  // returns when the condition may hold (the caller checks again) or the deadline passed
  t->why = why;
  t->obj = obj;
  t->deadline = deadline;
  t->timed_out = false;
  t->st = BLOCKED;
  O.steps++;
  budget_check();
  resched(t, true);
  t->st = READY;
  t->why = W_NONE;
  t->deadline = -1;
}


static void step(Th *t, const void *a, bool w, bool sync) {
  O.steps++;
  t->steps++;
  if (t->kind == WORKER) O.worker_steps++;
  if (gil_owner) {
    // work done by the holder of the interpreter lock, or done for it while it waits with the lock held
    Th *r = t;
    while (r->kind == WORKER && r->parent >= 0) r = &T[r->parent];
    if (r == gil_owner && (t == r || r->st == BLOCKED)) {
      O.gil_held_steps++;
      if (t != r) O.blocked_holding_gil_steps++;
    }
  }
  budget_check();
  if (live < 2) return;
  bool sw = false;
  if (C.mode == 0) {
    while (iscript < nscript && script[iscript].step < (u64)O.steps) iscript++;
    sw = iscript < nscript && script[iscript].step == (u64)O.steps;
  } else {
    if (a && !(t->slo && (const char *)a >= t->slo && (const char *)a < t->shi) && conflict(a, w)) {
      O.conflicts++;
      if (C.conflict_pm && (int64_t)rnd(rngS, 1000) < C.conflict_pm) sw = true;
    }
    if (C.mode == 1) {
      if ((u64)O.steps >= next_switch) { sw = true; next_switch = O.steps + geo(C.mean); }
      else if (sync && rnd(rngS, 4) == 0) sw = true;
    } else {
      while (pct_i < pct_n && (u64)O.steps >= pct_points[pct_i]) {
        t->prio = pct_n - pct_i;  // low
        pct_i++;
        sw = true;
      }
      if (sw) t->prio = t->prio > 1000 ? rnd(rngS, 900) + 64 : t->prio;
    }
  }
  if (sw) resched(t, false);
}

static inline void acc(const void *a, bool w) {
  Th *t = self;
  if (__builtin_expect(!t || !active, 1)) return;
  step(t, a, w, false);
}
static inline void syncpoint() {
  Th *t = self;
  if (!t || !active) return;
  step(t, 0, false, true);
}

// ------------------------------------------------------------------ threads
static Th *new_th(int kind) {
  if (nT == MAXT) die("too many threads");
  Th *t = &T[nT];
  memset(t, 0, sizeof *t);
  t->id = nT++;
  t->kind = kind;
  t->deadline = -1;
  t->parent = self ? self->id : -1;
  sem_init(&t->sem, 0, 0);
  t->prio = 1000000 + (mix(rngS) >> 20);
  t->st = READY;
  if (kind == WORKER) {
    if (live < 2 || true) {}
    live++;
  }
  if (live > O.max_threads) O.max_threads = live;
  return t;
}
static void own_stack(Th *t) {
  pthread_attr_t at;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    void *lo; size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    t->slo = (const char *)lo;
    t->shi = t->slo + sz;
    pthread_attr_destroy(&at);
  }
}
static void thread_end(Th *t) {
  t->st = DONE;
  live--;
  O.steps++;
  Th *to = pick(t, true);
  self = 0;
  if (to) { note_switch(to); cur = to; sem_post(&to->sem); return; }
  for (int i = 0; i < nT; i++) if (T[i].st != DONE) fatal(1);
  sem_post(&done_sem);
}

static void *trampoline(void *p) {
  Th *t = (Th *)p;
  own_stack(t);
  wait_turn(t);
  self = t;
  void *r = 0;
  if (t->state) {
    std::thread::_State *s = t->state;
    s->_M_run();   // an exception that leaves it ends the process, as in std::thread
    t->state = 0;
    delete s;
  } else {
    r = t->cfn(t->arg);
  }
  thread_end(t);
  return r;
}

static Th *by_handle(pthread_t h) {
  for (int i = nT - 1; i >= 0; i--)
    if (T[i].has_handle && pthread_equal(T[i].handle, h)) return &T[i];
  return 0;
}

static bool fault_thread() {
  int64_t k = O.thread_starts++;
  bool f = (k >= C.thr_from && k < C.thr_to) || (C.thr_pm && (int64_t)rnd(rngF, 1000) < C.thr_pm);
  if (f) O.thread_failed++;
  return f;
}

static int start(Th *t) {
  int e = pthread_create(&t->handle, 0, trampoline, t);
  if (e) die("pthread_create");
  t->has_handle = true;
  return e;
}

static void join_th(Th *t, Th *o) {
  while (o->st != DONE) block(t, W_JOIN, o);
}

extern "C" {
typedef void *(*pfn)(void *);

// std::thread::_M_start_thread(std::unique_ptr<_State>, void (*)())
extern void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread *, std::unique_ptr<std::thread::_State> *, void (*)()) __attribute__((weak));
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread *th, std::unique_ptr<std::thread::_State> *st, void (*dep)()) {
  if (!self || !active) {
    typedef void (*F)(std::thread *, std::unique_ptr<std::thread::_State> *, void (*)());
    static F f = (F)dlsym(RTLD_DEFAULT, "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
    if (!f) f = (F)dlsym(RTLD_NEXT, "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
    f(th, st, dep);
    return;
  }
  syncpoint();
  if (fault_thread()) throw std::system_error(EAGAIN, std::generic_category());
  Th *t = new_th(WORKER);
  t->state = st->release();
  if (live == 2) tab_gen++;
  start(t);
  *(pthread_t *)th = t->handle;
  syncpoint();
}
int __wrap_pthread_create(pthread_t *h, const pthread_attr_t *a, pfn f, void *arg) {
  if (!self || !active) return pthread_create(h, a, f, arg);
  syncpoint();
  if (fault_thread()) return EAGAIN;
  Th *t = new_th(WORKER);
  t->cfn = f;
  t->arg = arg;
  start(t);
  *h = t->handle;
  syncpoint();
  return 0;
}
int __wrap_pthread_join(pthread_t h, void **r) {
  if (self && active) {
    syncpoint();
    Th *o = by_handle(h);
    if (o) { join_th(self, o); o->has_handle = false; }
  }
  return pthread_join(h, r);
}
int __wrap_pthread_detach(pthread_t h) {
  if (self && active) {
    syncpoint();
    Th *o = by_handle(h);
    if (o) { o->detached = true; o->has_handle = false; }
  }
  return pthread_detach(h);
}
void __wrap__ZNSt6thread4joinEv(std::thread *th) {
  if (!th->joinable()) throw std::system_error(EINVAL, std::generic_category());
  __wrap_pthread_join(*(pthread_t *)th, 0);
  *(pthread_t *)th = 0;
}
void __wrap__ZNSt6thread6detachEv(std::thread *th) {
  if (!th->joinable()) throw std::system_error(EINVAL, std::generic_category());
  __wrap_pthread_detach(*(pthread_t *)th);
  *(pthread_t *)th = 0;
}
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() {
  if (!self || !active) return 2;
  return (unsigned)C.ncpu;
}
long __wrap_sysconf(int n) {
  if (self && active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return C.ncpu ? C.ncpu : -1;
  return sysconf(n);
}
int __wrap_get_nprocs() { return self && active ? (C.ncpu ? (int)C.ncpu : 1) : 2; }

// ------------------------------------------------------------------ locks
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!self || !active) return pthread_mutex_lock(m);
  syncpoint();
  Th *t = self;
  for (;;) {
    Lk *l = find_lk(m, true);
    if (!l->owner && !l->readers) { l->owner = t; l->n = 1; return 0; }
    if (l->owner == t && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { l->n++; return 0; }
    block(t, W_MUTEX, m);
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!self || !active) return pthread_mutex_trylock(m);
  syncpoint();
  Lk *l = find_lk(m, true);
  if (!l->owner && !l->readers) { l->owner = self; l->n = 1; return 0; }
  if (l->owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { l->n++; return 0; }
  return EBUSY;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) {
  return __wrap_pthread_mutex_lock(m);
}
static void unlock_nosync(const void *m) {
  Lk *l = find_lk(m, false);
  if (l && l->owner == self && --l->n == 0) { l->owner = 0; drop_lk(l); }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!self || !active) return pthread_mutex_unlock(m);
  unlock_nosync(m);
  syncpoint();
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!self || !active) return pthread_rwlock_rdlock(m);
  syncpoint();
  for (;;) {
    Lk *l = find_lk(m, true);
    if (!l->owner) { l->readers++; return 0; }
    block(self, W_RD, m);
  }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!self || !active) return pthread_rwlock_wrlock(m);
  syncpoint();
  for (;;) {
    Lk *l = find_lk(m, true);
    if (!l->owner && !l->readers) { l->owner = self; l->n = 1; return 0; }
    block(self, W_WR, m);
  }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!self || !active) return pthread_rwlock_unlock(m);
  Lk *l = find_lk(m, false);
  if (l) {
    if (l->owner == self) l->owner = 0; else if (l->readers) l->readers--;
    drop_lk(l);
  }
  syncpoint();
  return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts);
static int cond_wait(const void *c, pthread_mutex_t *m, int64_t deadline) {
  Th *t = self;
  unlock_nosync(m);
  t->signaled = C.spurious_pm && (int64_t)rnd(rngF, 1000) < C.spurious_pm;
  if (t->signaled) O.spurious++;
  block(t, W_COND, c, deadline);
  bool to = t->timed_out;
  t->signaled = false;
  __wrap_pthread_mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!self || !active) return pthread_cond_wait(c, m);
  return cond_wait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!self || !active) return pthread_cond_timedwait(c, m, ts);
  return cond_wait(c, m, (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
  return __wrap_pthread_cond_timedwait(c, m, ts);
}
static void notify(const void *c, bool all) {
  Th *w[MAXT]; int n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].st == BLOCKED && (T[i].why == W_COND || T[i].why == W_FUTEX) && T[i].obj == c && !T[i].signaled) w[n++] = &T[i];
  if (!n) return;
  if (all) for (int i = 0; i < n; i++) w[i]->signaled = true;
  else w[rnd(rngF, n)]->signaled = true;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  if (!self || !active) return pthread_cond_signal(c);
  notify(c, false);
  syncpoint();
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  if (!self || !active) return pthread_cond_broadcast(c);
  notify(c, true);
  syncpoint();
  return 0;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, void *ul) {
  __wrap_pthread_cond_wait((pthread_cond_t *)cv, *(pthread_mutex_t **)ul);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void *cv) { __wrap_pthread_cond_signal((pthread_cond_t *)cv); }
void __wrap__ZNSt18condition_variable10notify_allEv(void *cv) { __wrap_pthread_cond_broadcast((pthread_cond_t *)cv); }

bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *, unsigned *addr, unsigned val, bool has, int64_t s, int64_t ns) {
  if (!self || !active) { while (*(volatile unsigned *)addr == val) usleep(100); return true; }
  Th *t = self;
  t->val = val;
  t->signaled = false;
  block(t, W_FUTEX, addr, has ? s * 1000000000 + ns : -1);
  return !t->timed_out;
}
bool __wrap__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *x, unsigned *addr, unsigned val, bool has, int64_t s, int64_t ns) {
  return __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(x, addr, val, has, s, ns);
}
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *addr) {
  if (self && active) { notify(addr, true); syncpoint(); }
}

int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!self || !active) return pthread_once(o, f);
  syncpoint();
  while (*(volatile int *)o == 1) block(self, W_ONCE, o);
  if (*(volatile int *)o == 2) return 0;
  *(volatile int *)o = 1;
  try { f(); } catch (...) { *(volatile int *)o = 0; throw; }
  *(volatile int *)o = 2;
  syncpoint();
  return 0;
}
// static locals: byte 0: initialised, byte 4 (int at +4): 1 while in progress
int __wrap___cxa_guard_acquire(u64 *g) {
  if (*(volatile char *)g) return 0;
  if (!self || !active) { return *(volatile char *)g ? 0 : 1; }
  syncpoint();
  volatile int *p = (volatile int *)g + 1;
  while (*p == 1) block(self, W_ONCE, (const void *)p);
  if (*(volatile char *)g) return 0;
  *p = 1;
  return 1;
}
void __wrap___cxa_guard_release(u64 *g) {
  *((volatile int *)g + 1) = 0;
  *(volatile char *)g = 1;
  syncpoint();
}
void __wrap___cxa_guard_abort(u64 *g) {
  *((volatile int *)g + 1) = 0;
  syncpoint();
}

// ------------------------------------------------------------------ time and randomness
static int64_t tick() { now_ns += 1000 + (int64_t)rnd(rngX, 50000); return now_ns; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
  if (!self || !active) return clock_gettime(c, ts);
  int64_t n = tick();
  ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
  return 0;
}
time_t __wrap_time(time_t *p) {
  if (!self || !active) return time(p);
  time_t t = tick() / 1000000000;
  if (p) *p = t;
  return t;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (self && active) return tick();
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  return (int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec;
}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return __wrap__ZNSt6chrono3_V212system_clock3nowEv(); }
int __wrap_sched_yield() { if (self && active) { Th *t = self; O.steps++; budget_check(); if (live > 1) resched(t, false); return 0; } return sched_yield(); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
  if (!self || !active) return nanosleep(a, b);
  block(self, W_SLEEP, 0, now_ns + (int64_t)a->tv_sec * 1000000000 + a->tv_nsec);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *a, struct timespec *b) { return __wrap_nanosleep(a, b); }
int __wrap_usleep(useconds_t u) {
  if (!self || !active) return usleep(u);
  block(self, W_SLEEP, 0, now_ns + (int64_t)u * 1000);
  return 0;
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)mix(rngX); }
int __wrap_rand() { return (int)(mix(rngX) & 0x7fffffff); }
long __wrap_random() { return (long)(mix(rngX) & 0x7fffffff); }

// ------------------------------------------------------------------ the interpreter lock
void *__real_PyEval_SaveThread_ptr = 0;
typedef void *(*save_t)(void);
typedef void (*rest_t)(void *);
static save_t real_save = 0;
static rest_t real_rest = 0;
static void py_syms() {
  if (!real_save) {
    real_save = (save_t)dlsym(RTLD_DEFAULT, "PyEval_SaveThread");
    real_rest = (rest_t)dlsym(RTLD_DEFAULT, "PyEval_RestoreThread");
    if (!real_save || !real_rest) die("no Python in this process");
  }
}
static void gil_release(Th *t) {
  gil_owner = 0;
  step(t, 0, false, true);
}
static void gil_acquire(Th *t) {
  t->gil_wait_from = O.steps;
  while (gil_owner) block(t, W_GIL, 0);
  gil_owner = t;
  u64 w = O.steps - t->gil_wait_from;
  if (w > t->max_gil_wait) t->max_gil_wait = w;
}
void *__wrap_PyEval_SaveThread() {
  py_syms();
  void *r = real_save();
  if (self && active) gil_release(self);
  return r;
}
void __wrap_PyEval_RestoreThread(void *ts) {
  py_syms();
  if (self && active) { step(self, 0, false, true); gil_acquire(self); }
  real_rest(ts);
}

typedef int (*ens_t)(void);
typedef void (*rel_t)(int);
static int gilstate_depth(Th *t, int d) { static int n[MAXT]; n[t->id] += d; return n[t->id]; }
int __wrap_PyGILState_Ensure() {
  static ens_t f = (ens_t)dlsym(RTLD_DEFAULT, "PyGILState_Ensure");
  if (self && active && gil_owner != self) {
    step(self, 0, false, true);
    gil_acquire(self);
    gilstate_depth(self, 1);
  } else if (self && active && gilstate_depth(self, 0)) gilstate_depth(self, 1);
  return f();
}
void __wrap_PyGILState_Release(int st) {
  static rel_t f = (rel_t)dlsym(RTLD_DEFAULT, "PyGILState_Release");
  f(st);
  if (self && active && gilstate_depth(self, 0) && gilstate_depth(self, -1) == 0) gil_release(self);
}

// ------------------------------------------------------------------ memory
static char *arena = 0, *arena_top = 0, *arena_end = 0;
static void *freel[64];
static const size_t ARENA = 1ull << 32;
static int cls(size_t n) { int c = 4; while (((size_t)1 << c) < n) c++; return c; }
static void fill(void *p, size_t n) {
  if (C.heap_fill == -3) return;
  if (C.heap_fill == -1) { memset(p, 0, n); return; }
  if (C.heap_fill == -2) { memset(p, 0xff, n); return; }
  size_t lim = n < 65536 ? n : 65536;
  for (size_t i = 0; i + 8 <= lim; i += 8) { u64 v = mix(rngX); memcpy((char *)p + i, &v, 8); }
}
static void *arena_get(size_t n) {
  int c = cls(n ? n : 1);
  if (freel[c]) {
    void *p = freel[c];
    freel[c] = *(void **)p;
    fill(p, (size_t)1 << c);
    return p;
  }
  size_t sz = ((size_t)1 << c) + 16;
  if (arena_top + sz > arena_end) return 0;
  char *p = arena_top;
  *(int *)p = c;
  arena_top += sz;
  fill(p + 16, (size_t)1 << c);
  return p + 16;
}
static bool fault_alloc(Th *t) {
  int64_t k = O.allocs++;
  bool f = (k >= C.alloc_from && k < C.alloc_to) || (C.alloc_pm && (int64_t)rnd(rngF, 1000) < C.alloc_pm);
  if (f) O.alloc_failed++;
  return f;
}
static inline bool counted(Th *t) { return t && active && t->depth > 0; }
static inline bool in_arena(void *p) { return arena && (char *)p >= arena && (char *)p < arena_end; }

static void *new_(size_t n, bool nothrow) {
  Th *t = self;
  if (counted(t)) {
    if (fault_alloc(t)) { if (nothrow) return 0; throw std::bad_alloc(); }
    if (n < (1ull << 30)) {
      void *p = arena_get(n);
      if (p) return p;
    }
  }
  void *p = malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void del_(void *p) {
  if (!p) return;
  if (in_arena(p)) {
    // The arena belongs to the thread that runs; a thread outside the simulation (at its very end)
    // leaks instead of racing.
    if (!self || !active) return;
    int c = *(int *)((char *)p - 16);
    *(void **)p = freel[c];
    freel[c] = p;
    return;
  }
  free(p);
}
void *__wrap_malloc(size_t n) {
  if (counted(self) && fault_alloc(self)) { errno = ENOMEM; return 0; }
  return malloc(n);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (counted(self) && fault_alloc(self)) { errno = ENOMEM; return 0; }
  return calloc(a, b);
}
void *__wrap_realloc(void *p, size_t n) {
  if (counted(self) && fault_alloc(self)) { errno = ENOMEM; return 0; }
  return realloc(p, n);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc(s, false); acc(d, true); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc(s, false); acc(d, true); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { acc(d, true); return memset(d, c, n); }

// ------------------------------------------------------------------ numpy data allocations
// used as a NEP 49 allocator; counts and fails allocations made on behalf of the extension
// The memory is not zero, and it goes on with something else behind its end.
static bool np_fault() {
  Th *t = self;
  if (!counted(t) || !C.numpy_faults) return false;
  O.numpy_allocs++;
  if (!fault_alloc(t)) return false;
  O.numpy_failed++;
  return true;
}
static const size_t PAD = 64;
void *sim_np_malloc(void *, size_t n) {
  if (np_fault()) return 0;
  void *p = malloc(n + PAD);
  if (p) { fill(p, n); fill((char *)p + n, PAD); }
  return p;
}
void *sim_np_calloc(void *, size_t a, size_t b) {
  if (np_fault()) return 0;
  if (b && a > (SIZE_MAX - PAD) / b) return 0;
  size_t n = a * b;
  void *p = calloc(1, n + PAD);
  if (p) fill((char *)p + n, PAD);
  return p;
}
void *sim_np_realloc(void *, void *p, size_t n) {
  if (np_fault()) return 0;
  return realloc(p, n + PAD);
}
void sim_np_free(void *, void *p, size_t) { free(p); }

// ------------------------------------------------------------------ instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *) { if (self) self->depth++; }
void __tsan_func_exit() { if (self) self->depth--; }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void *a) { acc(a, false); } \
  void __tsan_write##n(void *a) { acc(a, true); } \
  void __tsan_unaligned_read##n(void *a) { acc(a, false); } \
  void __tsan_unaligned_write##n(void *a) { acc(a, true); } \
  void __tsan_volatile_read##n(void *a) { acc(a, false); } \
  void __tsan_volatile_write##n(void *a) { acc(a, true); } \
  void __tsan_read_write##n(void *a) { acc(a, false); acc(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long) { acc(a, false); }
void __tsan_write_range(void *a, unsigned long) { acc(a, true); }
void __tsan_vptr_update(void **a, void *) { acc(a, true); }
void __tsan_vptr_read(void **a) { acc(a, false); }
#define AT(B, TY) \
  TY __tsan_atomic##B##_load(const volatile TY *a, int) { acc((void *)a, false); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile TY *a, TY v, int) { acc((void *)a, true); __atomic_store_n(a, v, 5); } \
  TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int) { acc((void *)a, true); return __atomic_exchange_n(a, v, 5); } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int) { acc((void *)a, true); return __atomic_fetch_add(a, v, 5); } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int) { acc((void *)a, true); return __atomic_fetch_sub(a, v, 5); } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int) { acc((void *)a, true); return __atomic_fetch_and(a, v, 5); } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int) { acc((void *)a, true); return __atomic_fetch_or(a, v, 5); } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int) { acc((void *)a, true); return __atomic_fetch_xor(a, v, 5); } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int) { acc((void *)a, true); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int, int) { acc((void *)a, true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int, int) { \
    acc((void *)a, true); \
    if (self && active && C.spurious_pm && (int64_t)rnd(rngF, 1000) < C.spurious_pm) { O.spurious++; *c = __atomic_load_n(a, 5); return 0; } \
    return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int, int) { acc((void *)a, true); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { syncpoint(); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ control, from Python (ctypes)
int64_t sim_cfg_size() { return sizeof(Cfg) / 8; }
int64_t sim_out_size() { return sizeof(Out) / 8; }
void *sim_out() { return &O; }
void *sim_rec() { return rec; }
int64_t sim_nrec() { return nrec; }
const char *sim_why() { return why_buf; }

void sim_setup(const int64_t *cfg, const int64_t *sw, int64_t nsw, int64_t npy, int64_t fd) {
  memcpy(&C, cfg, sizeof C);
  memset(&O, 0, sizeof O);
  O.hash = 0xcbf29ce484222325ull;
  rngS = C.seed; mix(rngS);
  rngF = C.seed ^ 0xF417ull * 0x9E3779B97F4A7C15ull; mix(rngF);
  rngX = (u64)C.heap_fill * 0x2545F4914F6CDD1Dull + 12345; mix(rngX);
  next_switch = geo(C.mean);
  nT = 0; live = 0; gil_owner = 0; cur = 0; nlk = 0;
  now_ns = C.clock0;
  result_fd = (int)fd;
  expected_py = (int)npy; registered_py = finished_py = 0;
  sem_init(&done_sem, 0, 0);
  sem_init(&reg_sem, 0, 0);
  if (!tab) tab_init();
  tab_gen++;
  if (!arena) {
    arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) die("mmap arena");
    arena_end = arena + ARENA;
    arena_top = arena;
  }
  arena_top += (C.heap_shift & 0xffff) * 16;
  if (nsw) {
    script = (Switch *)realloc(script, nsw * sizeof(Switch));
    memcpy(script, sw, nsw * sizeof(Switch));
  }
  nscript = nsw; iscript = 0;
  nrec = 0;
  if (C.record && !rec) {
    rec = (Switch *)mmap(0, MAXREC * sizeof(Switch), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (rec == MAP_FAILED) die("mmap rec");
  }
  pct_n = C.mode == 2 ? (int)(C.depth < 60 ? C.depth : 60) : 0;
  pct_i = 0;
  for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + rnd(rngS, C.length > 0 ? C.length : 1);
  for (int i = 1; i < pct_n; i++)
    for (int j = i; j > 0 && pct_points[j] < pct_points[j - 1]; j--) { u64 x = pct_points[j]; pct_points[j] = pct_points[j - 1]; pct_points[j - 1] = x; }
  for (int i = 0; i < npy; i++) { Th *t = new_th(PY); live++; t->st = UNUSED; (void)t; }
  if (live > O.max_threads) O.max_threads = live;
}

static pthread_mutex_t reg_mx = PTHREAD_MUTEX_INITIALIZER;
// a caller thread enters the simulation (called without the GIL) and waits for its first turn
void sim_enter(int64_t id) {
  Th *t = &T[id];
  own_stack(t);
  pthread_mutex_lock(&reg_mx);
  registered_py++;
  t->st = READY;
  if (registered_py == expected_py) sem_post(&reg_sem);
  pthread_mutex_unlock(&reg_mx);
  wait_turn(t);
  self = t;
  gil_acquire(t);
}
// main: run until all caller threads have left
void sim_run() {
  while (sem_wait(&reg_sem) != 0) {}
  active = true;
  O.steps++;
  Th *t = pick(&T[0], true);
  note_switch(t);
  cur = t;
  sem_post(&t->sem);
  while (sem_wait(&done_sem) != 0) {}
  active = false;
  finish_report();
}
static sem_t hold;
static pthread_once_t hold_once = PTHREAD_ONCE_INIT;
static void hold_init() { sem_init(&hold, 0, 0); }
void sim_leave() {
  pthread_once(&hold_once, hold_init);
  Th *t = self;
  gil_owner = 0;
  thread_end(t);
  while (sem_wait(&hold) != 0) {}  // keep out of the way until the run is over
}
void sim_release_all() {
  pthread_once(&hold_once, hold_init);
  for (int i = 0; i < expected_py; i++) sem_post(&hold);
}
// a caller thread lets others run (called without the GIL)
int64_t sim_yield() {
  Th *t = self;
  if (!t || !active) return 0;
  gil_owner = 0;
  O.steps++;
  budget_check();
  if (C.mode != 1 && C.mode != 2) {
    bool sw = false;
    while (iscript < nscript && script[iscript].step < (u64)O.steps) iscript++;
    sw = iscript < nscript && script[iscript].step == (u64)O.steps;
    if (sw) resched(t, false);
  } else if (live > 1) resched(t, false);
  gil_acquire(t);
  return t->max_gil_wait;
}
// a caller thread waits until the condition set by another through sim_set(flag) holds
static volatile int flags[64];
void sim_set(int64_t f) { flags[f] = 2; }
void sim_wait(int64_t f) {
  Th *t = self;
  if (!t || !active) return;
  gil_owner = 0;
  O.steps++;
  while (flags[f] != 2) { flags[f] = 1; block(t, W_ONCE, (const void *)&flags[f]); }
  gil_acquire(t);
}
void sim_clear_flags() { for (int i = 0; i < 64; i++) flags[i] = 0; }
int64_t sim_steps() { return O.steps; }
// live workers started by this caller
int64_t sim_live_workers() {
  int n = 0;
  Th *t = self;
  for (int i = 0; i < nT; i++) if (T[i].kind == WORKER && T[i].st != DONE && (!t || T[i].parent == t->id)) n++;
  return n;
}
void sim_set_faults(int64_t af, int64_t at, int64_t apm, int64_t tf, int64_t tt, int64_t tpm) {
  C.alloc_from = af < 0 ? -1 : O.allocs + af; C.alloc_to = at < 0 ? -1 : at >= (1ll << 60) ? at : O.allocs + at; C.alloc_pm = apm;
  C.thr_from = tf < 0 ? -1 : O.thread_starts + tf; C.thr_to = tt < 0 ? -1 : tt >= (1ll << 60) ? tt : O.thread_starts + tt; C.thr_pm = tpm;
}
int64_t sim_depth() { return self ? self->depth : -1; }
}  // extern "C"

static void finish_report() {
  O.clock = now_ns - C.clock0;
  u64 m = 0;
  for (int i = 0; i < nT; i++) if (T[i].max_gil_wait > m) m = T[i].max_gil_wait;
  O.ticks_max_wait = m;
}

// ------------------------------------------------------------------ global operator new / delete
void *operator new(size_t n) { return new_(n, false); }
void *operator new[](size_t n) { return new_(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_(n, true); }
void operator delete(void *p) noexcept { del_(p); }
void operator delete[](void *p) noexcept { del_(p); }
void operator delete(void *p, size_t) noexcept { del_(p); }
void operator delete[](void *p, size_t) noexcept { del_(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del_(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del_(p); }
