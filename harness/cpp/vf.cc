#include "vf.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cxxabi.h>
#include <fcntl.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

// ------------------------------------------------------------ allocations
static long g_live = 0;
extern "C" __attribute__((weak)) int mc_on_free(void*); // of mc_rt.cc: 1 if it keeps the memory
#ifndef VF_NO_NEW
static void* vf_new(size_t n) {
  g_live++;
  void* p = malloc(n ? n : 1);
  if (!p) {
    abort();
  }
  return p;
}
static void* vf_new_al(size_t n, std::align_val_t al) {
  g_live++;
  void* p = nullptr;
  if (posix_memalign(&p, std::max<size_t>(static_cast<size_t>(al), sizeof(void*)), n ? n : 1)) {
    abort();
  }
  return p;
}
static void vf_del(void* p) {
  if (p) {
    g_live--;
    if (mc_on_free && mc_on_free(p)) {
      return;
    }
    free(p);
  }
}
void* operator new(size_t n) { return vf_new(n); }
void* operator new[](size_t n) { return vf_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vf_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vf_new(n); }
void* operator new(size_t n, std::align_val_t a) { return vf_new_al(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return vf_new_al(n, a); }
void operator delete(void* p) noexcept { vf_del(p); }
void operator delete[](void* p) noexcept { vf_del(p); }
void operator delete(void* p, size_t) noexcept { vf_del(p); }
void operator delete[](void* p, size_t) noexcept { vf_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { vf_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vf_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vf_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vf_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vf_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vf_del(p); }
#endif

namespace vf {

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}

namespace {
  constexpr int MaxFail = 12;
  constexpr int MaxWorkers = 64;
  struct Shm {
    std::atomic<uint64_t> progress; // bumped on every choice
    uint64_t execs, steps, nstates, pruned;
    int n; // choices of the running execution
    uint16_t choices[MaxChoices];
    uint16_t arity[MaxChoices];
    int nfail;
    Failure fail[MaxFail];
    int done;     // shard explored completely
    int maxdepth;
    int nondet;
    int deadline; // stopped by the deadline
    char note[512];
    char tracebuf[1 << 16];
    int tracelen;
  };
  Shm* g_shm = nullptr; // of this worker
  const Scenario* g_sc = nullptr;
  bool g_thorough = false;
  bool g_tracing = false;
  int g_pos = 0;      // next choice
  int g_prefix = 0;   // length of the replayed prefix
  bool g_replay = false;
  int g_K = 1, g_w = 0;
  bool g_leakcheck = true;
  bool g_confirming = false;

  // open addressing set of hashes, malloc based
  struct HashSet {
    uint64_t* tab = nullptr;
    size_t cap = 0, size = 0;
    bool insert(uint64_t h) {
      if (h == 0) {
        h = 1;
      }
      if ((size + 1) * 2 > cap) {
        size_t ncap = cap ? cap * 2 : 1 << 12;
        auto* nt = static_cast<uint64_t*>(calloc(ncap, sizeof(uint64_t)));
        for (size_t i = 0; i < cap; ++i) {
          if (tab[i]) {
            size_t j = tab[i] & (ncap - 1);
            while (nt[j]) {
              j = (j + 1) & (ncap - 1);
            }
            nt[j] = tab[i];
          }
        }
        free(tab);
        tab = nt;
        cap = ncap;
      }
      size_t j = h & (cap - 1);
      while (tab[j]) {
        if (tab[j] == h) {
          return false;
        }
        j = (j + 1) & (cap - 1);
      }
      tab[j] = h;
      size++;
      return true;
    }
    void clear() {
      free(tab);
      tab = nullptr;
      cap = size = 0;
    }
  };
  HashSet g_states, g_seen;

  uint64_t hashBytes(const void* p, size_t n) {
    uint64_t h = 1469598103934665603ULL;
    auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
      h = (h ^ c[i]) * 1099511628211ULL;
    }
    h ^= h >> 32;
    h *= 0x9E3779B97F4A7C15ULL;
    h ^= h >> 29;
    return h;
  }
  bool mine(int len) {
    return g_K <= 1 || static_cast<int>(hashBytes(g_shm->choices, len * sizeof(uint16_t)) % g_K) == g_w;
  }
} // namespace

int depth() { return g_thorough ? g_sc->thorough : g_sc->quick; }
bool thorough() { return g_thorough; }
bool tracing() { return g_tracing; }

void nondeterminism(const char* what) {
  snprintf(g_shm->note, sizeof g_shm->note, "nondeterminism: %s", what);
  g_shm->nondet = 1;
  _exit(77);
}

int choose(int n) {
  if (n <= 0) {
    fprintf(stderr, "vf: choose(%d)\n", n);
    abort();
  }
  Shm& s = *g_shm;
  if (n == 1) {
    return 0;
  }
  s.progress.fetch_add(1, std::memory_order_relaxed);
  int c;
  if (g_pos < g_prefix) {
    if (!g_replay && s.arity[g_pos] != n) {
      nondeterminism("a replayed prefix offers different choices");
    }
    if (g_replay) {
      s.arity[g_pos] = n;
      if (s.choices[g_pos] >= n) {
        nondeterminism("replay file does not fit");
      }
    }
    c = s.choices[g_pos];
  } else {
    if (g_pos >= MaxChoices) {
      fprintf(stderr, "vf: too many choices\n");
      abort();
    }
    c = 0;
    s.choices[g_pos] = 0;
    s.arity[g_pos] = n;
  }
  g_pos++;
  s.n = g_pos;
  if (!g_replay && g_pos == g_sc->shard && !mine(g_pos)) {
    throw Skip{};
  }
  return c;
}

void trace(const char* fmt, ...) {
  if (!g_tracing) {
    return;
  }
  Shm& s = *g_shm;
  int room = sizeof(s.tracebuf) - s.tracelen - 2;
  if (room <= 0) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(s.tracebuf + s.tracelen, room, fmt, ap);
  va_end(ap);
  s.tracelen += std::min(k, room - 1);
  s.tracebuf[s.tracelen++] = '\n';
  s.tracebuf[s.tracelen] = 0;
}

void step(int n) { g_shm->steps += n; }
void state(uint64_t h) {
  if (g_states.size < (8u << 20)) {
    g_states.insert(h);
  }
}
void state(const std::string& c) { state(hashBytes(c.data(), c.size())); }
bool seen(const std::string& c) {
  if (g_replay || g_pos < g_prefix || g_pos < g_sc->shard) {
    return false; // only where the rest of the subtree is this worker's
  }
  return !g_seen.insert(hashBytes(c.data(), c.size()));
}
void prune() {
  g_shm->pruned++;
  throw Skip{};
}
long live() { return g_live; }
void setLive(long n) { g_live = n; }
void noLeakCheck() { g_leakcheck = false; }

void failf(const char* key, const char* fmt, ...) {
  Violation v;
  snprintf(v.key, sizeof v.key, "%s", key);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(v.msg, sizeof v.msg, fmt, ap);
  va_end(ap);
  throw v;
}

namespace {
  enum Outcome { Ok, Bad, Skipped };
  // one execution; on Bad fills key/msg
  Outcome runOnce(Violation& out) {
    g_pos = 0;
    g_shm->n = 0;
    g_leakcheck = g_sc->leak;
    const long before = g_live;
    try {
      g_sc->fn();
    } catch (const Skip&) {
      return Skipped;
    } catch (const Violation& v) {
      out = v;
      return Bad;
    } catch (const std::exception& e) {
      snprintf(out.key, sizeof out.key, "unexpected-exception");
      int st = 0;
      char* dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      snprintf(out.msg, sizeof out.msg, "%s: %s", dn ? dn : typeid(e).name(), e.what());
      free(dn);
      return Bad;
    }
    if (g_leakcheck && g_live != before) {
      snprintf(out.key, sizeof out.key, "%s", g_live > before ? "leak" : "overfree");
      snprintf(out.msg, sizeof out.msg, "%ld allocations not balanced at the end of the execution", g_live - before);
      return Bad;
    }
    return Ok;
  }

  void record(const Violation& v) {
    Shm& s = *g_shm;
    for (int i = 0; i < s.nfail; ++i) {
      if (!strcmp(s.fail[i].key, v.key)) {
        if (s.n < s.fail[i].n) {
          memcpy(s.fail[i].choices, s.choices, sizeof s.choices);
          memcpy(s.fail[i].msg, v.msg, sizeof v.msg);
          s.fail[i].n = s.n;
        }
        return;
      }
    }
    if (s.nfail < MaxFail) {
      Failure& f = s.fail[s.nfail];
      memcpy(f.key, v.key, sizeof v.key);
      memcpy(f.msg, v.msg, sizeof v.msg);
      memcpy(f.choices, s.choices, sizeof s.choices);
      f.n = s.n;
      s.nfail++;
    }
  }

  double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }

  void explore(double deadline) {
    Shm& s = *g_shm;
    g_prefix = 0;
    while (true) {
      Violation v;
      Outcome o = runOnce(v);
      int used = g_pos;
      if (o == Bad) {
        // the same choices must fail the same way (a first execution may differ by lazily made statics)
        bool count = used >= g_sc->shard || mine(used);
        if (count) {
          Violation v2;
          g_prefix = used;
          s.progress.fetch_add(1);
          Outcome o2 = runOnce(v2);
          if (o2 == Bad && !strcmp(v.key, v2.key)) {
            record(v);
            s.execs++;
          } else if (!(!strcmp(v.key, "leak") && o2 == Ok)) {
            snprintf(s.note, sizeof s.note, "nondeterminism: failure [%s] %s not reproduced", v.key, v.msg);
            s.nondet = 1;
          } else {
            s.execs++;
          }
          used = g_pos;
        }
      } else if (o == Ok) {
        if (used >= g_sc->shard || mine(used)) {
          s.execs++;
        }
      }
      s.maxdepth = std::max(s.maxdepth, used);
      if (used < g_prefix) {
        nondeterminism("an execution ended before its replayed prefix");
      }
      // backtrack
      int k = used;
      while (k > 0 && s.choices[k - 1] + 1 >= s.arity[k - 1]) {
        k--;
      }
      if (k == 0) {
        s.done = 1;
        break;
      }
      s.choices[k - 1]++;
      g_prefix = k;
      if ((s.execs & 63) == 0 && now() > deadline) {
        s.deadline = 1;
        break;
      }
    }
    s.nstates = g_states.size;
  }

  std::string jsonEscape(const std::string& in) {
    std::string r;
    for (unsigned char c : in) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += c;
      } else if (c == '\n') {
        r += "\\n";
      } else if (c < 0x20 || c >= 0x7f) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += c;
      }
    }
    return r;
  }

  Shm* newShm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(2);
    }
    return static_cast<Shm*>(p);
  }

  std::string readFile(const std::string& p) {
    std::string r;
    if (FILE* f = fopen(p.c_str(), "r")) {
      char b[4096];
      size_t n;
      while ((n = fread(b, 1, sizeof b, f)) > 0) {
        r.append(b, n);
      }
      fclose(f);
    }
    return r;
  }

  // replays choices alone in a child; returns 0 ok, 1 violation, 2 crash, 3 hang, 4 mismatch
  int replayChild(Shm* shm, const uint16_t* ch, int n, Violation& v, std::string& errtxt, const std::string& errfile, int limit,
                  bool tracingOn) {
    memset(static_cast<void*>(shm), 0, sizeof(Shm));
    memcpy(shm->choices, ch, n * sizeof(uint16_t));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 2);
      g_shm = shm;
      g_replay = true;
      g_prefix = n;
      g_tracing = tracingOn;
      Violation vv;
      Outcome o = runOnce(vv);
      if (o == Bad && !strcmp(vv.key, "leak")) {
        g_prefix = n;
        o = runOnce(vv);
      }
      if (o == Bad) {
        record(vv);
        _exit(11);
      }
      _exit(o == Ok ? 0 : 12);
    }
    int st = 0;
    double t0 = now();
    while (true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) {
        break;
      }
      if (now() - t0 > limit) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        return 3;
      }
      usleep(2000);
    }
    errtxt = readFile(errfile);
    unlink(errfile.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      return 0;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) {
      memcpy(v.key, shm->fail[0].key, sizeof v.key);
      memcpy(v.msg, shm->fail[0].msg, sizeof v.msg);
      return 1;
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 12 || WEXITSTATUS(st) == 77)) {
      return 4;
    }
    return 2;
  }

  std::string summarise(const std::string& err) {
    // first interesting line of a sanitizer report, and the frames in the code under test
    std::string r;
    size_t pos = 0;
    int frames = 0;
    while (pos < err.size() && r.size() < 900) {
      size_t e = err.find('\n', pos);
      if (e == std::string::npos) {
        e = err.size();
      }
      std::string line = err.substr(pos, e - pos);
      if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
          line.find("Assertion") != std::string::npos || line.find("terminate called") != std::string::npos ||
          line.find("what()") != std::string::npos || line.find("vf-mc:") != std::string::npos) {
        r += line + "\n";
      } else if (line.find("    #") != std::string::npos && frames < 6) {
        r += line.substr(0, 160) + "\n";
        frames++;
      }
      pos = e + 1;
    }
    return r.empty() ? err.substr(0, 600) : r;
  }
} // namespace

int main_(int argc, char** argv) {
  std::string only, replay, out = "/dev/stdout", tmp = "/tmp";
  int workers = 8;
  double budget = 600;
  std::vector<std::string> skip;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") {
      g_thorough = val() == "thorough";
    } else if (a == "--only") {
      only = val();
    } else if (a == "--replay") {
      replay = val();
    } else if (a == "--out") {
      out = val();
    } else if (a == "--workers") {
      workers = std::stoi(val());
    } else if (a == "--budget") {
      budget = std::stod(val());
    } else if (a == "--tmp") {
      tmp = val();
    } else if (a == "--list") {
      for (auto& s : scenarios()) {
        printf("%s\n", s.name);
      }
      return 0;
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  std::sort(scenarios().begin(), scenarios().end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; });

  if (!replay.empty()) {
    std::istringstream is(readFile(replay));
    std::string name, word, tier;
    is >> word >> name >> word >> tier >> word;
    g_thorough = tier == "thorough";
    std::vector<uint16_t> ch;
    int c;
    while (is >> c) {
      ch.push_back(c);
    }
    for (auto& s : scenarios()) {
      if (name == s.name) {
        g_sc = &s;
        Violation v;
        std::string err;
        Shm* shm = newShm();
        int r = replayChild(shm, ch.data(), ch.size(), v, err, tmp + "/vf-replay-" + std::to_string(getpid()), 120, true);
        printf("%s", shm->tracebuf);
        if (r == 1) {
          printf("VIOLATED [%s] %s\n", v.key, v.msg);
        } else if (r == 2) {
          printf("CRASH\n%s\n", err.c_str());
        } else {
          printf("%s\n", r == 0 ? "no violation" : r == 3 ? "HANG" : "replay does not fit");
        }
        return r ? 1 : 0;
      }
    }
    printf("no such scenario\n");
    return 2;
  }

  FILE* jf = fopen(out.c_str(), "w");
  fprintf(jf, "{\"scenarios\": [\n");
  const double start = now();
  bool first = true;
  int rc = 0;
  std::vector<Shm*> shms;
  for (int w = 0; w < workers; ++w) {
    shms.push_back(newShm());
  }
  for (auto& sc : scenarios()) {
    if (!only.empty() && only != sc.name) {
      continue;
    }
    g_sc = &sc;
    if (depth() <= 0) {
      continue;
    }
    const double t0 = now();
    std::vector<pid_t> pids(workers);
    std::vector<std::string> errf(workers), stf(workers);
    fflush(nullptr);
    for (int w = 0; w < workers; ++w) {
      memset(static_cast<void*>(shms[w]), 0, sizeof(Shm));
      errf[w] = tmp + "/vf-err-" + std::to_string(getpid()) + "-" + std::to_string(w);
      stf[w] = tmp + "/vf-st-" + std::to_string(getpid()) + "-" + std::to_string(w);
      pid_t pid = fork();
      if (pid == 0) {
        fclose(jf);
        int fd = open(errf[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        g_shm = shms[w];
        g_K = workers;
        g_w = w;
        explore(start + budget);
        if (FILE* f = fopen(stf[w].c_str(), "wb")) {
          for (size_t i = 0; i < g_states.cap; ++i) {
            if (g_states.tab[i]) {
              fwrite(&g_states.tab[i], 8, 1, f);
            }
          }
          fclose(f);
        }
        _exit(0);
      }
      pids[w] = pid;
    }
    std::vector<uint64_t> lastProg(workers, 0);
    std::vector<double> lastT(workers, now());
    std::vector<int> status(workers, -1); // 0 fine, 2 crash, 3 hang, 5 nondeterminism
    int left = workers;
    while (left > 0) {
      for (int w = 0; w < workers; ++w) {
        if (status[w] != -1) {
          continue;
        }
        int st = 0;
        if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
          left--;
          status[w] = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : WIFEXITED(st) && WEXITSTATUS(st) == 77 ? 5 : 2;
          continue;
        }
        uint64_t pr = shms[w]->progress.load();
        if (pr != lastProg[w]) {
          lastProg[w] = pr;
          lastT[w] = now();
        } else if (now() - lastT[w] > 40) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          left--;
          status[w] = 3;
        }
      }
      usleep(1000);
    }
    // collect
    uint64_t execs = 0, steps = 0, pruned = 0;
    int maxdepth = 0;
    bool complete = true;
    HashSet merged;
    std::vector<Failure*> fails;
    std::string notes;
    for (int w = 0; w < workers; ++w) {
      Shm& s = *shms[w];
      execs += s.execs;
      steps += s.steps;
      pruned += s.pruned;
      maxdepth = std::max(maxdepth, s.maxdepth);
      if (!s.done) {
        complete = false;
      }
      if (FILE* f = fopen(stf[w].c_str(), "rb")) {
        uint64_t h;
        while (fread(&h, 8, 1, f) == 1) {
          merged.insert(h);
        }
        fclose(f);
        unlink(stf[w].c_str());
      }
      if (s.nondet) {
        notes += std::string(s.note) + "; ";
        rc = 2;
      }
      for (int i = 0; i < s.nfail; ++i) {
        bool dup = false;
        for (auto*& f : fails) {
          if (!strcmp(f->key, s.fail[i].key)) {
            dup = true;
            if (s.fail[i].n < f->n) {
              f = &s.fail[i];
            }
          }
        }
        if (!dup) {
          fails.push_back(&s.fail[i]);
        }
      }
      if (status[w] == 2 || status[w] == 3) {
        auto* f = new Failure;
        memcpy(f->choices, s.choices, sizeof s.choices);
        f->n = s.n;
        std::string workerErr = readFile(errf[w]);
        Violation v;
        std::string err;
        Shm* sh = newShm();
        int r = replayChild(sh, f->choices, f->n, v, err, errf[w] + "r", 90, false);
        munmap(sh, sizeof(Shm));
        if (r == 2 || r == 3) {
          snprintf(f->key, sizeof f->key, "%s", r == 2 ? "crash" : "hang");
          snprintf(f->msg, sizeof f->msg, "%s", r == 2 ? summarise(err).c_str() : "no progress within the time limit");
          bool dup = false;
          for (auto* o : fails) {
            dup = dup || !strcmp(o->key, f->key);
          }
          if (!dup) {
            fails.push_back(f);
          }
        } else if (r == 1) {
          memcpy(f->key, v.key, sizeof v.key);
          memcpy(f->msg, v.msg, sizeof v.msg);
          fails.push_back(f);
        } else {
          // depends on earlier executions of the shard: memory corruption by one of them
          if (status[w] == 2) {
            snprintf(f->key, sizeof f->key, "crash");
            snprintf(f->msg, sizeof f->msg, "in the course of the exploration (not alone): %s", summarise(workerErr).c_str());
            fails.push_back(f);
          } else {
            notes += "a worker stalled but its execution ends when run alone; ";
            rc = 2;
          }
        }
      }
      unlink(errf[w].c_str());
    }
    // samples: first execution and one further down
    std::string samples;
    {
      Shm* sh = newShm();
      uint16_t none[1] = {0};
      Violation v;
      std::string err;
      if (fails.empty()) {
        int r = replayChild(sh, none, 0, v, err, tmp + "/vf-s-" + std::to_string(getpid()), 60, true);
        (void)r;
        samples = "\"" + jsonEscape(std::string(sh->tracebuf).substr(0, 600)) + "\"";
        uint16_t ch[MaxChoices];
        int n = 0;
        for (int w = 0; w < workers; ++w) {
          if (shms[w]->execs) {
            n = shms[w]->n;
            memcpy(ch, shms[w]->choices, sizeof ch);
          }
        }
        if (n > 0) {
          replayChild(sh, ch, n, v, err, tmp + "/vf-s-" + std::to_string(getpid()), 60, true);
          samples += ", \"" + jsonEscape(std::string(sh->tracebuf).substr(0, 900)) + "\"";
        }
      }
      munmap(sh, sizeof(Shm));
    }
    fprintf(jf,
            "%s{\"name\": \"%s\", \"depth\": %d, \"executions\": %lu, \"transitions\": %lu, \"states\": %zu, \"pruned\": %lu, "
            "\"max_choices\": %d, \"complete\": %s, \"wall_s\": %.2f, \"notes\": \"%s\", \"samples\": [%s], \"failures\": [",
            first ? "" : ",\n", sc.name, depth(), execs, steps, merged.size, pruned, maxdepth, complete ? "true" : "false",
            now() - t0, jsonEscape(notes).c_str(), samples.c_str());
    first = false;
    for (size_t i = 0; i < fails.size(); ++i) {
      // trace of the failing execution
      Shm* sh = newShm();
      Violation v;
      std::string err;
      if (replayChild(sh, fails[i]->choices, fails[i]->n, v, err, tmp + "/vf-s-" + std::to_string(getpid()), 60, true) == 1 &&
          !strcmp(v.key, fails[i]->key)) {
        memcpy(fails[i]->msg, v.msg, sizeof v.msg); // with more detail
      }
      std::string ch;
      for (int k = 0; k < fails[i]->n; ++k) {
        ch += (k ? "," : "") + std::to_string(fails[i]->choices[k]);
      }
      fprintf(jf, "%s{\"key\": \"%s\", \"msg\": \"%s\", \"choices\": [%s], \"trace\": \"%s\"}", i ? ", " : "",
              jsonEscape(fails[i]->key).c_str(), jsonEscape(fails[i]->msg).c_str(), ch.c_str(),
              jsonEscape(std::string(sh->tracebuf).substr(0, 6000)).c_str());
      munmap(sh, sizeof(Shm));
    }
    fprintf(jf, "]}");
    merged.clear();
    fflush(jf);
    fprintf(stderr, "[explore] %-28s depth %d: %lu executions, %lu steps, %.1fs%s%s\n", sc.name, depth(), execs, steps, now() - t0,
            complete ? "" : " (INCOMPLETE)", fails.empty() ? "" : " FAILURES");
  }
  fprintf(jf, "\n]}\n");
  fclose(jf);
  return rc;
}

} // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char** argv) { return vf::main_(argc, argv); }
#endif
