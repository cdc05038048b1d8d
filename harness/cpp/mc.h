// Controlled concurrency: runs functions as threads of one process under a
// scheduler whose decisions are choices of the explorer (vf.h).
//
// The code under test is compiled with -fsanitize=thread, but linked with
// mc_rt.cc instead of the sanitizer's own runtime. Every pthread mutex, rwlock,
// once and condition operation and every atomic operation is a scheduling
// point, and every memory access is checked for data races with vector clocks
// (happens-before, byte accurate) and for use after free.
#ifndef MC_H
#define MC_H
#include <functional>
#include <vector>

namespace mc {
constexpr int MaxThreads = 4;
// Runs the bodies as threads. At most `preemptions` times a thread is
// interrupted at a scheduling point at which it could have gone on; switches at
// which it could not are free. Fails on data races, use after free, deadlock,
// errors in lock usage and exceptions.
void run(const std::vector<std::function<void()>>& bodies, int preemptions);
int self();  // index of the running thread, -1 outside of run()
void point(); // an explicit scheduling point
} // namespace mc
#endif
