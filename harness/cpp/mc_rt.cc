// Runtime for mc.h. Compiled without instrumentation.
#include "mc.h"
#include "vf.h"
#include <algorithm>
#include <cxxabi.h>
#include <cstdarg>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <ucontext.h>
#include <unistd.h>

namespace mc {
namespace {
  constexpr int N = MaxThreads;
  constexpr size_t StackSize = 512 << 10;

  struct VC {
    uint16_t c[N] = {};
    void join(const VC& o) {
      for (int i = 0; i < N; ++i) {
        c[i] = std::max(c[i], o.c[i]);
      }
    }
  };

  enum Pending { None, Lock, RdLock, WrLock, CondWait, GuardWait, OnceWait };
  struct Fiber {
    ucontext_t ctx;
    char* stack{nullptr};
    bool done{true};
    Pending pending{None};
    void* obj{nullptr};
    bool wakened{false};
    VC vc, acqPending, relFence;
    int held{0};
    int spins{0};
    // C++ exception state
    struct {
      void* caught;
      unsigned uncaught;
    } eh{nullptr, 0};
    const void* pcs[256];
    int depth{0};
    const std::function<void()>* body{nullptr};
  };
  Fiber g_f[N];
  ucontext_t g_main;
  int g_n = 0;
  int g_cur = -1;
  bool g_on = false;
  int g_budget = 0;
  int g_switches = 0;

  // failures noticed inside of the threads; reported by run()
  bool g_bad = false;
  char g_key[96];
  char g_msg[1200];
  const void* g_pc1 = nullptr;
  const void* g_pc2 = nullptr;
  const void* g_st[8];
  int g_nst = 0;
  void bad(const char* key, const char* fmt, ...) {
    if (g_bad) {
      return;
    }
    g_bad = true;
    snprintf(g_key, sizeof g_key, "%s", key);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_msg, sizeof g_msg, fmt, ap);
    va_end(ap);
    g_nst = 0;
    if (g_cur >= 0) {
      Fiber& f = g_f[g_cur];
      for (int i = std::min(f.depth, 256) - 1; i >= 0 && g_nst < 8; --i) {
        g_st[g_nst++] = f.pcs[i];
      }
    }
  }

  // ------------------------------------------------------------ lock states
  struct LockState {
    void* addr{nullptr};
    uint32_t gen{0};
    int owner{-1}; // writer
    int count{0};
    int readers{0};
    VC w, r;
  };
  uint32_t g_gen = 1;
  template <class T>
  struct Table {
    T* tab{nullptr};
    size_t cap{0}, n{0};
    T& get(void* a) {
      if (!tab || n * 2 >= cap) {
        grow();
      }
      size_t h = (reinterpret_cast<size_t>(a) >> 2) * 0x9e3779b97f4a7c15ull;
      for (size_t i = h >> 20;; ++i) {
        T& t = tab[i & (cap - 1)];
        if (t.gen != g_gen) {
          t = T{};
          t.gen = g_gen;
          t.addr = a;
          n++;
          return t;
        }
        if (t.addr == a) {
          return t;
        }
      }
    }
    T* find(void* a) {
      if (!tab) {
        return nullptr;
      }
      size_t h = (reinterpret_cast<size_t>(a) >> 2) * 0x9e3779b97f4a7c15ull;
      for (size_t i = h >> 20;; ++i) {
        T& t = tab[i & (cap - 1)];
        if (t.gen != g_gen) {
          return nullptr;
        }
        if (t.addr == a) {
          return &t;
        }
      }
    }
    void grow() {
      T* old = tab;
      size_t oc = cap;
      cap = cap ? cap * 2 : 1 << 12;
      tab = static_cast<T*>(calloc(cap, sizeof(T)));
      n = 0;
      for (size_t i = 0; i < oc; ++i) {
        if (old[i].gen == g_gen) {
          get(old[i].addr) = old[i];
        }
      }
      free(old);
    }
  };
  Table<LockState> g_locks;
  struct SyncVar { // atomics, guards
    void* addr{nullptr};
    uint32_t gen{0};
    VC vc;
    int state{0};
    int owner{-1};
  };
  Table<SyncVar> g_sync;

  // ------------------------------------------------------------ shadow memory
  struct Cell {
    void* addr{nullptr};
    uint32_t gen{0};
    bool freed{false};
    uint8_t wt[8]{};   // writer + 1
    uint16_t wc[8]{};  // clock of the last write
    uint16_t rc[8][N]{}; // clocks of the last reads
    const void* wpc{nullptr};
    const void* rpc{nullptr};
  };
  Table<Cell> g_shadow;

  bool ownStack(const void* p) {
    if (g_cur < 0) {
      return false;
    }
    const char* c = static_cast<const char*>(p);
    const Fiber& f = g_f[g_cur];
    return c >= f.stack && c < f.stack + StackSize;
  }

  inline void access(const void* p, size_t n, bool write, const void* pc) {
    if (!g_on || g_cur < 0 || n == 0 || ownStack(p)) {
      return;
    }
    Fiber& f = g_f[g_cur];
    size_t a = reinterpret_cast<size_t>(p), e = a + n;
    while (a < e) {
      Cell& c = g_shadow.get(reinterpret_cast<void*>(a & ~size_t(7)));
      const size_t next = std::min((a & ~size_t(7)) + 8, e);
      if (c.freed) {
        bad("use-after-free", "thread %d %s memory that has been freed", g_cur, write ? "writes" : "reads");
        g_pc1 = pc;
        g_pc2 = c.wpc;
        return;
      }
      for (; a < next; ++a) {
        const int b = a & 7;
        if (c.wt[b] && c.wt[b] != g_cur + 1 && c.wc[b] > f.vc.c[c.wt[b] - 1]) {
          bad("data-race", "thread %d %s what thread %d writes concurrently", g_cur, write ? "writes" : "reads", c.wt[b] - 1);
          g_pc1 = g_pc1 ? g_pc1 : pc;
          g_pc2 = g_pc2 ? g_pc2 : c.wpc;
          return;
        }
        if (write) {
          for (int t = 0; t < g_n; ++t) {
            if (t != g_cur && c.rc[b][t] > f.vc.c[t]) {
              bad("data-race", "thread %d writes what thread %d reads concurrently", g_cur, t);
              g_pc1 = g_pc1 ? g_pc1 : pc;
              g_pc2 = g_pc2 ? g_pc2 : c.rpc;
              return;
            }
          }
          c.wt[b] = g_cur + 1;
          c.wc[b] = f.vc.c[g_cur];
        } else {
          c.rc[b][g_cur] = f.vc.c[g_cur];
        }
      }
      (write ? c.wpc : c.rpc) = pc;
    }
  }

  // ------------------------------------------------------------ quarantine
  void** g_quar = nullptr;
  size_t g_nquar = 0, g_cquar = 0;

  // ------------------------------------------------------------ scheduling
  void swapEh(Fiber& f) {
    auto* g = reinterpret_cast<decltype(f.eh)*>(abi::__cxa_get_globals());
    std::swap(*g, f.eh);
  }
  void toMain() {
    Fiber& f = g_f[g_cur];
    swapEh(f);
    swapcontext(&f.ctx, &g_main);
    swapEh(f);
  }

  bool enabled(int i) {
    Fiber& f = g_f[i];
    if (f.done) {
      return false;
    }
    switch (f.pending) {
    case None:
      return true;
    case Lock: {
      auto& l = g_locks.get(f.obj);
      return l.owner < 0 && l.readers == 0;
    }
    case WrLock: {
      auto& l = g_locks.get(f.obj);
      return l.owner < 0 && l.readers == 0;
    }
    case RdLock:
      return g_locks.get(f.obj).owner < 0;
    case CondWait:
      return f.wakened;
    case GuardWait:
    case OnceWait:
      return g_sync.get(f.obj).state != 1;
    }
    return true;
  }

  // a point at which the running thread may be interrupted; returns when it
  // may go on with what it has announced
  void sched(Pending p = None, void* obj = nullptr) {
    if (!g_on || g_cur < 0) {
      return;
    }
    Fiber& f = g_f[g_cur];
    f.pending = p;
    f.obj = obj;
    if (enabled(g_cur) && g_budget == 0 && f.spins < 2000) {
      f.pending = None;
      return;
    }
    bool others = false;
    for (int i = 0; i < g_n; ++i) {
      others |= i != g_cur && enabled(i);
    }
    if (!others && enabled(g_cur)) {
      f.pending = None;
      return;
    }
    toMain();
    g_f[g_cur].pending = None;
  }

  void entry(int i) {
    Fiber& f = g_f[i];
    try {
      (*f.body)();
    } catch (const vf::Violation& v) {
      bad(v.key, "%s", v.msg);
    } catch (const std::exception& e) {
      bad("exception", "thread %d: %s: %s", i, typeid(e).name(), e.what());
    } catch (...) {
      bad("exception", "thread %d: unknown exception", i);
    }
    if (f.held != 0) {
      bad("lock-still-held", "thread %d ends with %d locks held", i, f.held);
    }
    f.done = true;
    // leave for good
    swapEh(f);
    setcontext(&g_main);
  }

  std::string where(const void* pc) {
    if (!pc || !vf::tracing()) { // this is slow
      return "?";
    }
    char cmd[256], out[800];
    Dl_info di;
    size_t off = reinterpret_cast<size_t>(pc) - 1;
    if (dladdr(pc, &di) && di.dli_fbase) {
      off -= reinterpret_cast<size_t>(di.dli_fbase);
    }
    snprintf(cmd, sizeof cmd, "addr2line -Cfse /proc/%d/exe 0x%zx 2>/dev/null", getpid(), off);
    FILE* p = popen(cmd, "r");
    if (!p) {
      return "?";
    }
    std::string r;
    while (fgets(out, sizeof out, p)) {
      std::string l = out;
      while (!l.empty() && l.back() == '\n') {
        l.pop_back();
      }
      if (l.size() > 140) {
        l = l.substr(0, 140) + "...";
      }
      r += (r.empty() ? "" : " at ") + l;
    }
    pclose(p);
    return r;
  }

  void leave() {
    g_on = false;
    g_cur = -1;
    for (size_t i = 0; i < g_nquar; ++i) {
      free(g_quar[i]);
    }
    g_nquar = 0;
  }
  struct Leave {
    ~Leave() { leave(); }
  };
} // namespace

int self() { return g_cur; }
void point() { sched(); }

void run(const std::vector<std::function<void()>>& bodies, int preemptions) {
  g_n = static_cast<int>(bodies.size());
  if (g_n > N) {
    abort();
  }
  __libc_single_threaded = 0; // shared_ptr skips the atomic operations otherwise
  ++g_gen;
  g_locks.n = g_sync.n = g_shadow.n = 0;
  g_budget = preemptions;
  g_bad = false;
  g_pc1 = g_pc2 = nullptr;
  g_switches = 0;
  for (int i = 0; i < g_n; ++i) {
    Fiber& f = g_f[i];
    char* st = f.stack;
    if (!st) {
      st = static_cast<char*>(mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      if (st == MAP_FAILED) {
        abort();
      }
    }
    f.stack = st;
    f.done = false;
    f.pending = None;
    f.obj = nullptr;
    f.wakened = false;
    f.vc = f.acqPending = f.relFence = VC{};
    f.vc.c[i] = 1;
    f.held = f.spins = f.depth = 0;
    f.eh = {nullptr, 0};
    f.body = &bodies[i];
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = StackSize;
    f.ctx.uc_link = &g_main;
    makecontext(&f.ctx, reinterpret_cast<void (*)()>(entry), 1, i);
  }
  Leave guard;
  g_on = true;
  int last = -1;
  int steps = 0;
  bool deadlock = false;
  for (;;) {
    int opt[N], n = 0;
    const bool lastGoes = last >= 0 && enabled(last);
    const bool spin = lastGoes && g_f[last].spins >= 2000;
    if (lastGoes && !spin) {
      opt[n++] = last;
    }
    for (int i = 0; i < g_n; ++i) {
      if (i != last && enabled(i)) {
        opt[n++] = i;
      }
    }
    if (lastGoes && spin) {
      if (n == 0) {
        opt[n++] = last;
      }
      g_f[last].spins = 0;
    }
    if (n == 0) {
      for (int i = 0; i < g_n; ++i) {
        deadlock |= !g_f[i].done;
      }
      break;
    }
    if (g_bad) {
      break; // no need to go on
    }
    int k = 0;
    if (!(lastGoes && !spin && g_budget == 0)) {
      g_cur = -1;
      g_on = false;
      k = vf::choose(n); // may leave by an exception
      g_on = true;
    }
    if (lastGoes && !spin && k != 0) {
      g_budget--;
    }
    if (opt[k] != last) {
      vf::trace("-> thread %d", opt[k]);
      if (last >= 0) {
        g_f[last].spins = 0;
      }
    }
    last = g_cur = opt[k];
    ++steps;
    Fiber& f = g_f[last];
    swapcontext(&g_main, &f.ctx);
    g_cur = -1;
  }
  g_on = false;
  vf::step(steps);
  if (g_bad) {
    std::string m = g_msg;
    if (g_pc1) {
      m += "; here: " + where(g_pc1);
      m += "; there: " + where(g_pc2);
      m += "; called from";
      for (int i = 0; i < g_nst; ++i) {
        m += " <- " + where(g_st[i]);
      }
    }
    std::string key = g_key;
    vf::noLeakCheck();
    vf::failf(key.c_str(), "%s", m.c_str());
  }
  if (deadlock) {
    vf::noLeakCheck();
    std::string m;
    for (int i = 0; i < g_n; ++i) {
      if (!g_f[i].done) {
        m += " thread " + std::to_string(i) + " waits in " + where(g_f[i].depth > 0 ? g_f[i].pcs[std::min(g_f[i].depth, 256) - 1] : nullptr) + ";";
      }
    }
    vf::failf("deadlock", "no thread can go on:%s", m.c_str());
  }
}

namespace {
  void release(VC& into, bool assign) {
    Fiber& f = g_f[g_cur];
    if (assign) {
      into = f.vc;
    } else {
      into.join(f.vc);
    }
    f.vc.c[g_cur]++;
  }
  void acquire(const VC& from) { g_f[g_cur].vc.join(from); }

  int lock(void* m, Pending how, bool recursive) {
    if (!g_on || g_cur < 0) {
      return 0;
    }
    auto* l = &g_locks.get(m);
    if (l->owner == g_cur) {
      if (recursive) {
        l->count++;
        return 0;
      }
      bad("deadlock", "thread %d locks what it has locked already", g_cur);
    }
    sched(how, m);
    l = &g_locks.get(m);
    Fiber& f = g_f[g_cur];
    if (how == RdLock) {
      l->readers++;
      acquire(l->w);
    } else {
      l->owner = g_cur;
      l->count = 1;
      acquire(l->w);
      acquire(l->r);
    }
    f.held++;
    return 0;
  }
  int trylock(void* m, Pending how, bool recursive) {
    if (!g_on || g_cur < 0) {
      return 0;
    }
    sched();
    auto& l = g_locks.get(m);
    if (l.owner == g_cur && recursive) {
      l.count++;
      return 0;
    }
    if (l.owner >= 0 || (how != RdLock && l.readers > 0)) {
      if (++g_f[g_cur].spins >= 2000) {
        sched();
      }
      return EBUSY;
    }
    if (how == RdLock) {
      l.readers++;
      acquire(l.w);
    } else {
      l.owner = g_cur;
      l.count = 1;
      acquire(l.w);
      acquire(l.r);
    }
    g_f[g_cur].held++;
    return 0;
  }
  int unlock(void* m) {
    if (!g_on || g_cur < 0) {
      return 0;
    }
    auto& l = g_locks.get(m);
    if (l.owner == g_cur) {
      if (--l.count > 0) {
        return 0;
      }
      l.owner = -1;
      release(l.w, true);
    } else if (l.readers > 0) {
      l.readers--;
      release(l.r, false);
    } else {
      bad("unlock", "thread %d unlocks what it has not locked", g_cur);
      return EPERM;
    }
    g_f[g_cur].held--;
    return 0;
  }
  bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
} // namespace
} // namespace mc
using namespace mc;

// ------------------------------------------------------------ allocation hooks
extern "C" void mc_on_alloc(void*, size_t) {}
extern "C" int mc_on_free(void* p) {
  if (!g_on || g_cur < 0) {
    return 0;
  }
  const size_t n = malloc_usable_size(p);
  const void* pc = __builtin_return_address(0);
  Fiber& f = g_f[g_cur];
  if (f.depth > 0) {
    pc = f.pcs[std::min(f.depth, 256) - 1];
  }
  access(p, n, true, pc);
  for (size_t a = reinterpret_cast<size_t>(p) & ~size_t(7); a < reinterpret_cast<size_t>(p) + n; a += 8) {
    Cell& c = g_shadow.get(reinterpret_cast<void*>(a));
    c.freed = true;
    c.wpc = pc;
  }
  if (g_nquar == g_cquar) {
    g_cquar = g_cquar ? 2 * g_cquar : 1024;
    g_quar = static_cast<void**>(realloc(g_quar, g_cquar * sizeof(void*)));
  }
  g_quar[g_nquar++] = p;
  return 1;
}

// ------------------------------------------------------------ pthread
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
  __builtin_memset(m, 0, sizeof *m);
  if (a) {
    int t = 0;
    pthread_mutexattr_gettype(a, &t);
    m->__data.__kind = t;
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  access(m, sizeof *m, true, __builtin_return_address(0));
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  access(m, 1, false, __builtin_return_address(0));
  return mc::lock(m, Lock, isRecursive(m));
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) noexcept { return mc::lock(m, Lock, isRecursive(m)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) noexcept { return mc::lock(m, Lock, isRecursive(m)); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  access(m, 1, false, __builtin_return_address(0));
  return mc::trylock(m, Lock, isRecursive(m));
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  access(m, 1, false, __builtin_return_address(0));
  return mc::unlock(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { return mc::lock(const_cast<int*>(m), Lock, false); }
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept { return mc::trylock(const_cast<int*>(m), Lock, false); }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { return mc::unlock(const_cast<int*>(m)); }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept {
  __builtin_memset(m, 0, sizeof *m);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return mc::lock(m, RdLock, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return mc::lock(m, WrLock, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return mc::trylock(m, RdLock, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return mc::trylock(m, WrLock, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return mc::unlock(m); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept {
  __builtin_memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_on || g_cur < 0) {
    return 0;
  }
  mc::unlock(m);
  g_f[g_cur].wakened = false;
  sched(CondWait, c);
  return mc::lock(m, Lock, isRecursive(m));
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return pthread_cond_wait(c, m); }
static int wake(pthread_cond_t* c, bool all) {
  if (g_on && g_cur >= 0) {
    for (int i = 0; i < g_n; ++i) {
      if (!g_f[i].done && g_f[i].pending == CondWait && g_f[i].obj == c && !g_f[i].wakened) {
        g_f[i].wakened = true;
        if (!all) {
          break;
        }
      }
    }
  }
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return wake(c, true); }
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (*o == 2 && (!g_on || g_cur < 0)) {
    return 0;
  }
  if (g_on && g_cur >= 0) {
    for (;;) {
      sched();
      auto& s = g_sync.get(o);
      if (*o == 2) {
        acquire(s.vc);
        return 0;
      }
      if (s.state == 1) {
        sched(OnceWait, o);
        continue;
      }
      s.state = 1;
      break;
    }
    f();
    *o = 2;
    auto& s = g_sync.get(o);
    s.state = 0;
    release(s.vc, true);
    return 0;
  }
  f();
  *o = 2;
  return 0;
}
int sched_yield() noexcept {
  if (g_on && g_cur >= 0) {
    g_f[g_cur].spins = 2000;
    sched();
  }
  return 0;
}

// initialisation of function-local statics
int __cxa_guard_acquire(char* g) {
  if (g_on && g_cur >= 0) {
    for (;;) {
      auto& s = g_sync.get(g);
      if (*g) {
        acquire(s.vc);
        return 0;
      }
      if (s.state == 1) {
        sched(GuardWait, g);
        continue;
      }
      s.state = 1;
      return 1;
    }
  }
  return *g ? 0 : 1;
}
void __cxa_guard_release(char* g) {
  *g = 1;
  if (g_on && g_cur >= 0) {
    auto& s = g_sync.get(g);
    s.state = 0;
    release(s.vc, true);
  }
}
void __cxa_guard_abort(char* g) {
  if (g_on && g_cur >= 0) {
    g_sync.get(g).state = 0;
  }
}

// ------------------------------------------------------------ memory functions
#define PC __builtin_return_address(0)
void* memcpy(void* d, const void* s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  char* a = static_cast<char*>(d);
  const char* b = static_cast<const char*>(s);
  if (a < b || a >= b + n) {
    void* dd = d;
    asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
  } else {
    for (volatile size_t i = n; i > 0; i = i - 1) {
      a[i - 1] = b[i - 1];
    }
  }
  return d;
}
void* memset(void* d, int v, size_t n) {
  access(d, n, true, PC);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
int memcmp(const void* x, const void* y, size_t n) {
  access(x, n, false, PC);
  access(y, n, false, PC);
  const unsigned char *a = static_cast<const unsigned char*>(x), *b = static_cast<const unsigned char*>(y);
  for (volatile size_t i = 0; i < n; i = i + 1) {
    if (a[i] != b[i]) {
      return a[i] < b[i] ? -1 : 1;
    }
  }
  return 0;
}
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
size_t strlen(const char* s) {
  volatile size_t n = 0;
  while (s[n]) {
    n = n + 1;
  }
  access(s, n + 1, false, PC);
  return n;
}

// ------------------------------------------------------------ instrumentation
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if (g_on && g_cur >= 0) {
    Fiber& f = g_f[g_cur];
    if (f.depth < 256) {
      f.pcs[f.depth] = pc;
    }
    f.depth++;
  }
}
void __tsan_func_exit() {
  if (g_on && g_cur >= 0 && g_f[g_cur].depth > 0) {
    g_f[g_cur].depth--;
  }
}
#define RW(SIZE)                                                                                                       \
  void __tsan_read##SIZE(void* p) { access(p, SIZE, false, PC); }                                                      \
  void __tsan_write##SIZE(void* p) { access(p, SIZE, true, PC); }                                                      \
  void __tsan_unaligned_read##SIZE(void* p) { access(p, SIZE, false, PC); }                                            \
  void __tsan_unaligned_write##SIZE(void* p) { access(p, SIZE, true, PC); }                                            \
  void __tsan_volatile_read##SIZE(void* p) { access(p, SIZE, false, PC); }                                             \
  void __tsan_volatile_write##SIZE(void* p) { access(p, SIZE, true, PC); }                                             \
  void __tsan_unaligned_volatile_read##SIZE(void* p) { access(p, SIZE, false, PC); }                                   \
  void __tsan_unaligned_volatile_write##SIZE(void* p) { access(p, SIZE, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) {
    access(p, 8, true, PC);
  }
}
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

static void atomicPoint() {
  if (g_on && g_cur >= 0) {
    g_f[g_cur].spins++;
    sched();
  }
}
static bool on() { return g_on && g_cur >= 0; }
static void ldOrder(const volatile void* p, int mo) {
  if (!on()) {
    return;
  }
  if (auto* s = g_sync.find(const_cast<void*>(p))) {
    if (mo == __ATOMIC_RELAXED) {
      g_f[g_cur].acqPending.join(s->vc);
    } else {
      acquire(s->vc);
    }
  }
}
static void stOrder(const volatile void* p, int mo, bool rmw) {
  if (!on()) {
    return;
  }
  auto& s = g_sync.get(const_cast<void*>(p));
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) {
    release(s.vc, !rmw);
  } else if (rmw) {
    s.vc.join(g_f[g_cur].relFence);
  } else {
    s.vc = g_f[g_cur].relFence;
  }
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define ATOMIC(B, T)                                                                                                   \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) {                                                             \
    atomicPoint();                                                                                                     \
    ldOrder(p, mo);                                                                                                    \
    return *p;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) {                                                          \
    atomicPoint();                                                                                                     \
    stOrder(p, mo, false);                                                                                             \
    *p = v;                                                                                                            \
  }                                                                                                                    \
  static T rmw##B(volatile T* p, int mo) {                                                                             \
    atomicPoint();                                                                                                     \
    ldOrder(p, acq(mo) ? mo : __ATOMIC_RELAXED);                                                                       \
    stOrder(p, mo, true);                                                                                              \
    return *p;                                                                                                         \
  }                                                                                                                    \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) {                                                          \
    T o = rmw##B(p, mo);                                                                                               \
    *p = v;                                                                                                            \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) {                                                         \
    T o = rmw##B(p, mo);                                                                                               \
    *p = o + v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) {                                                         \
    T o = rmw##B(p, mo);                                                                                               \
    *p = o - v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) {                                                         \
    T o = rmw##B(p, mo);                                                                                               \
    *p = o & v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) {                                                          \
    T o = rmw##B(p, mo);                                                                                               \
    *p = o | v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) {                                                         \
    T o = rmw##B(p, mo);                                                                                               \
    *p = o ^ v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) {                                                        \
    T o = rmw##B(p, mo);                                                                                               \
    *p = ~(o & v);                                                                                                     \
    return o;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) {                          \
    atomicPoint();                                                                                                     \
    T o = *p;                                                                                                          \
    if (o == *c) {                                                                                                     \
      ldOrder(p, acq(mo) ? mo : __ATOMIC_RELAXED);                                                                     \
      stOrder(p, mo, true);                                                                                            \
      *p = v;                                                                                                          \
      return 1;                                                                                                        \
    }                                                                                                                  \
    ldOrder(p, fmo);                                                                                                   \
    *c = o;                                                                                                            \
    return 0;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) {                            \
    return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo);                                               \
  }                                                                                                                    \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) {                                \
    __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fmo);                                                     \
    return c;                                                                                                          \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  if (on()) {
    Fiber& f = g_f[g_cur];
    if (acq(mo)) {
      f.vc.join(f.acqPending);
    }
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) {
      f.relFence = f.vc;
      f.vc.c[g_cur]++;
    }
  }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ------------------------------------------------------------ parts of the containers that live in libstdc++
#include <map>
#include <list>
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
  using F = void (*)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
  static F real = nullptr;
  if (!real) {
    real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"));
  }
  access(x, sizeof *x, true, PC);
  access(p, sizeof *p, true, PC);
  access(&header, sizeof header, true, PC);
  real(left, x, p, header);
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept {
  using F = _Rb_tree_node_base* (*)(_Rb_tree_node_base*, _Rb_tree_node_base&);
  static F real = nullptr;
  if (!real) {
    real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"));
  }
  access(z, sizeof *z, true, PC);
  access(&header, sizeof header, true, PC);
  return real(z, header);
}
// the traversals, so that the nodes on the way are seen
template <class B>
static B inc(B x) {
  access(x, sizeof *x, false, PC);
  if (x->_M_right) {
    x = x->_M_right;
    access(x, sizeof *x, false, PC);
    while (x->_M_left) {
      x = x->_M_left;
      access(x, sizeof *x, false, PC);
    }
  } else {
    auto y = x->_M_parent;
    access(y, sizeof *y, false, PC);
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
      access(y, sizeof *y, false, PC);
    }
    if (x->_M_right != y) {
      x = y;
    }
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc<_Rb_tree_node_base*>(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc<const _Rb_tree_node_base*>(x); }
} // namespace std
