// Schedule exploration for code compiled with -fsanitize=thread but linked with this runtime instead
// of libtsan: every memory access, atomic operation and function entry of the code under test is a
// scheduling point.
//   controlled: exactly one registered thread runs at a time; who runs and for how many points is drawn
//               from the seed, so a schedule is reproducible.
//   free:       threads really run in parallel; points inject random pauses.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>

namespace sched {
struct Plan {
  bool controlled = true;
  uint64_t seed = 1;
  unsigned quantum = 30;      // mean number of points between switches
  unsigned stall = 10;        // percent of switches that put the thread that is left aside for long
  unsigned after_rmw = 0;     // per mille of atomic updates after which the thread is put aside for long
  uint64_t max_points = 40000000;
};
// quantum/stall/after_rmw from two case words; styles 0..31
Plan plan(bool controlled, uint64_t seed, uint64_t style);
// runs the bodies as threads, returns when all have ended
struct Stats { uint64_t points = 0, switches = 0; };
Stats run(const Plan&, const std::vector<std::function<void()>>& bodies);
uint64_t stamp();             // logical time: strictly increasing over the whole case
bool active();
void pause();                 // a voluntary switch
void yield_point();           // an ordinary scheduling point (for harness code)
}  // namespace sched
