// Threads that generate HashIds at random, under the deterministic scheduler (spec/Ids.tla).
#include "sched_main.hpp"
#include <thread>
#include <vector>
#include <sm/hash_id.hpp>
using vd::J;

struct Sc {
  const J& s;
  explicit Sc(const J& s) : s(s) {}
  sm::HashId got[64];
  void body() {
    int nt = s["threads"].num(), per = s["per"].num();
    { vs::Quiet q; sm::HashId::random(); }
    {
      std::thread th[4];
      for (int t = 0; t < nt; t++) th[t] = std::thread([this, t, per] { vs::Armed a; for (int k = 0; k < per; k++) { sm::HashId x = sm::HashId::random(); got[t * per + k] = x; } });
      for (int t = 0; t < nt; t++) th[t].join();
    }
    // which of the generated ids are equal, as the number of the first equal one (the values differ between runs)
    for (int i = 0; i < nt * per; i++) {
      int f = 0; while (!(got[f] == got[i])) f++;
      vs::log(J::obj().set("op", "rand").set("n", i + 1).set("first", f + 1).set("valid", got[i].isValid()).dump());
    }
  }
};
int main(int argc, char** argv) { return vs::runSchedules<Sc>(argc, argv); }
