// Reclamation: what is retired is given back when the guard it was retired under has ended and every guard open then has ended too.
#pragma once
#include <cstdlib>
#include <vector>
namespace util {
class Epoch {
 public:
  Epoch(); ~Epoch();
  bool guarded(); void retire(void* p); void enter(); void leave();
 private:
  struct Impl; Impl* d;
};
class EpochGuard { Epoch& e; public: explicit EpochGuard(Epoch& x, int = 0) : e(x) { e.enter(); } ~EpochGuard() { e.leave(); } EpochGuard(const EpochGuard&) = delete; void retire(void* p) { e.retire(p); } };
}  // namespace util
