// Exhaustive choice-point explorer.
//
// A scenario is a function that calls vf::choose(n) wherever its environment
// can go n different ways. The explorer runs it once for every complete
// sequence of choices (depth first, by re-execution), in parallel worker
// processes that split the tree by hashing a prefix of the choices.
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

namespace vf {

constexpr int MaxChoices = 4000;

struct Failure {
  char key[96];
  char msg[1500];
  int n;
  uint16_t choices[MaxChoices];
};

struct Violation { // thrown by fail
  char key[96];
  char msg[1500];
};
struct Skip {}; // not in this worker's share, or pruned

using Fn = void (*)();
struct Scenario {
  const char* name;
  Fn fn;
  int quick;    // depth in the quick tier
  int thorough; // depth in the thorough tier
  int shard;    // number of leading choices used to split the tree
  bool leak;    // balance allocations
};
std::vector<Scenario>& scenarios();
struct Register {
  Register(Scenario s) { scenarios().push_back(s); }
};

#define VF_SCENARIO_OPT(NAME, Q, T, SHARD, LEAK)                                                                       \
  static void NAME();                                                                                                  \
  static ::vf::Register reg_##NAME({#NAME, NAME, Q, T, SHARD, LEAK});                                                  \
  static void NAME()
#define VF_SCENARIO(NAME, Q, T) VF_SCENARIO_OPT(NAME, Q, T, 4, true)

int choose(int n);
inline bool flip() { return choose(2) == 1; }
template <class T, size_t N>
const T& pick(const T (&arr)[N]) {
  return arr[choose(static_cast<int>(N))];
}
template <class V>
const auto& pickv(const V& v) {
  return v[choose(static_cast<int>(v.size()))];
}
int depth();                 // of the running scenario in this tier
bool thorough();             // tier
bool tracing();              // true when a trace is wanted (replay, samples)
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void step(int n = 1);        // count transitions
void state(uint64_t hash);   // count a distinct state
void state(const std::string& canonical);
[[noreturn]] void failf(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
long live();                 // live allocations now
void setLive(long n);
struct NotCounted { // allocations made or freed in its scope are not balanced (caches)
  long n{live()};
  ~NotCounted() { setLive(n); }
};
void noLeakCheck();          // for this execution
[[noreturn]] void prune();   // abandon this execution (state seen before)
bool seen(const std::string& canonical); // per worker visited set, for use with prune()
[[noreturn]] void nondeterminism(const char* what);

template <class T>
std::string show(const T& v) {
  if constexpr (requires(std::ostream& os, const T& t) { os << t; }) {
    std::ostringstream os;
    os.precision(17);
    if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>) {
      os << static_cast<int>(v);
    } else {
      os << v;
    }
    return os.str();
  } else {
    return "?";
  }
}

#define VF_ASSERT(COND, KEY)                                                                                           \
  do {                                                                                                                 \
    if (!(COND)) {                                                                                                     \
      ::vf::failf(KEY, "%s (%s:%d)", #COND, __FILE__, __LINE__);                                                       \
    }                                                                                                                  \
  } while (0)
#define VF_EQ(A, B, KEY)                                                                                               \
  do {                                                                                                                 \
    const auto& vf_a = (A);                                                                                            \
    const auto& vf_b = (B);                                                                                            \
    if (!(vf_a == vf_b)) {                                                                                             \
      ::vf::failf(KEY, "%s is %s but %s is %s (%s:%d)", #A, ::vf::show(vf_a).c_str(), #B, ::vf::show(vf_b).c_str(),    \
                  __FILE__, __LINE__);                                                                                 \
    }                                                                                                                  \
  } while (0)

// runs f; returns 0 if nothing was thrown, 1 for E, and fails otherwise
template <class E, class F>
int throws(F&& f, const char* key) {
  try {
    f();
  } catch (const E&) {
    return 1;
  } catch (const std::exception& e) {
    failf(key, "unexpected exception %s: %s", typeid(e).name(), e.what());
  }
  return 0;
}
#define VF_THROWS(E, EXPR, KEY)                                                                                        \
  do {                                                                                                                 \
    if (::vf::throws<E>([&] { (void)(EXPR); }, KEY) != 1) {                                                            \
      ::vf::failf(KEY, "%s did not throw (%s:%d)", #EXPR, __FILE__, __LINE__);                                         \
    }                                                                                                                  \
  } while (0)
#define VF_NOTHROW(EXPR, KEY)                                                                                          \
  do {                                                                                                                 \
    try {                                                                                                              \
      (void)(EXPR);                                                                                                    \
    } catch (const std::exception& vf_e) {                                                                             \
      ::vf::failf(KEY, "%s threw %s (%s:%d)", #EXPR, vf_e.what(), __FILE__, __LINE__);                                 \
    }                                                                                                                  \
  } while (0)

// Should a sequence of operations end after step i? Every length up to the
// depth is explored, so that it is enough to look at the result at the end.
inline bool last(int i) { return i + 1 >= depth() || flip(); }

// Runs operations on a world up to the depth. In the quick tier a sequence ends
// after an operation that changed nothing (as far as the model of the world
// goes), in the thorough tier it always goes on.
template <class W, class F, class E>
void run(W& w, F&& op, E&& end) {
  std::string before = w.canon();
  for (int i = 0;; ++i) {
    op(w);
    step();
    std::string now = w.canon();
    if ((now == before && !thorough()) || last(i)) {
      break;
    }
    before = std::move(now);
  }
  w.verify();
  end();
  w.finish();
}
template <class W, class F>
void run(W& w, F&& op) {
  run(w, op, [] {});
}

int main_(int argc, char** argv);

} // namespace vf
#endif
