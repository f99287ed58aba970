// Executes calls of the NsecTime utilities (spec/NsecTime.tla).
#include "vdrv.hpp"
#include <limits>
#include <time.h>
#include <sys/time.h>
#include <sm/timing/NsecTimeUtilities.hpp>
using vd::J;
using namespace sm::timing;

static long long g_s = 0, g_n = 0;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = g_s; tv->tv_usec = g_n / 1000; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept { ts->tv_sec = g_s; ts->tv_nsec = g_n; return 0; }

static NsecTime in(const J& t) {
  __int128 v = 0;
  for (int i = 3; i >= 0; i--) v = v * 1000000 + t["q"][i].num();
  return (NsecTime)(t["neg"].boolean() ? -v : v);
}
static J out(NsecTime x) {
  __int128 v = x; bool neg = v < 0; if (neg) v = -v;
  J q = J::arr();
  for (int i = 0; i < 4; i++) { q.push((long long)(v % 1000000)); v /= 1000000; }
  return J::obj().set("k", "time").set("v", J::obj().set("neg", neg).set("q", q));
}
template <class T> static int cmp(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }

struct D {
  J step(const J& e) {
    const std::string op = e["op"].str();
    if (op == "valid") return vd::rBool(isValid(in(e["t"])));
    if (op == "invalid") { constexpr NsecTime x = getInvalidTime(); return out(x); }
    if (op == "chrono") return out(chronoToNsec(nsecToChrono(in(e["t"]))));
    if (op == "sec") return out(secToNsec(nsecToSec(in(e["t"]))));
    if (op == "whole" || op == "part") {
      double s = (double)e["s"].num() + (op == "part" ? e["kk"].num() / 512.0 : 0);
      return out(secToNsec(e["neg"].boolean() ? -s : s));
    }
    if (op == "toSec") { double d = nsecToSec((NsecTime)e["s"].num() * 1000000000LL), s = (double)e["s"].num(); if (std::fabs(d - s) > std::fabs(s) * 1e-15) return vd::rExc("far"); return vd::rInt(std::llround(d)); }
    if (op == "mono") {
      NsecTime a = in(e["t"]), b = in(e["u"]);
      double x = nsecToSec(a), y = nsecToSec(b);
      return J::obj().set("k", "cmp").set("sec", cmp(x, y)).set("back", cmp(secToNsec(x), secToNsec(y))).set("chr", cmp(nsecToChrono(a), nsecToChrono(b)));
    }
    if (op == "now") { NsecTime t = in(e["t"]); g_s = t / 1000000000; g_n = t % 1000000000; return out(nsecNow()); }
    return vd::rExc("bad op");
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
