// Executes histories on sm::timing::Timer / Timing (spec/Timing.tla) under a virtual clock.
#include "timingreport.hpp"
#include <sys/time.h>
#include <time.h>
#include <algorithm>
#include <sm/timing/Timer.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
using vd::J;
using namespace sm::timing;

static long long g_us = 1700000000LL * 1000000;   // the virtual clock
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = g_us / 1000000; tv->tv_usec = g_us % 1000000; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept { ts->tv_sec = g_us / 1000000; ts->tv_nsec = (g_us % 1000000) * 1000; return 0; }

struct D {
  std::map<long long, std::unique_ptr<Timer>> timers;
  std::vector<std::string> order;            // tags mentioned, with the handle the registry gave
  std::map<std::string, size_t> handle;

  void mention(const std::string& t) { if (!handle.count(t)) { handle[t] = Timing::getHandle(t); order.push_back(t); } }
  J obs(J r) {
    J ns = J::arr(), ts = J::arr();
    for (auto& t : order) { ns.push(J((long long)Timing::getNumSamples(handle[t]))); ts.push(us(Timing::getTotalSeconds(handle[t]))); }
    return r.set("ns", ns).set("ts", ts);
  }
  J core(const J& e) {
    const std::string op = e["op"].str();
    const std::string tag = e.has("tag") ? e["tag"].str() : "";
    const bool byH = e.has("byh") && e["byh"].boolean();
    const bool bad = e.has("bad") && e["bad"].boolean();
    try {
      if (op == "tick") { g_us += e["d"].num(); return vd::rOk(); }
      if (op == "handle") { size_t h = Timing::getHandle(tag); if (!handle.count(tag)) { handle[tag] = h; order.push_back(tag); } return vd::rInt((long long)h); }
      if (op == "new") {
        bool st = e["stopped"].boolean();
        std::unique_ptr<Timer> t;
        if (bad) t.reset(st ? new Timer((size_t)1000003, true) : new Timer((size_t)1000003));
        else if (byH) { mention(tag); t.reset(st ? new Timer(handle[tag], true) : new Timer(handle[tag])); }
        else { t.reset(st ? new Timer(tag, true) : new Timer(tag)); mention(tag); }
        timers[e["id"].num()] = std::move(t);
        return vd::rOk();
      }
      if (op == "start") { timers.at(e["id"].num())->start(); return vd::rOk(); }
      if (op == "stop") { timers.at(e["id"].num())->stop(); return vd::rOk(); }
      if (op == "isTiming") return vd::rBool(timers.at(e["id"].num())->isTiming());
      if (op == "destroy") { timers.erase(e["id"].num()); return vd::rOk(); }
      if (op == "burst") {
        for (auto& d : e["ds"].a) { Timer t(tag); mention(tag); g_us += d.num(); if (d.num() % 2) t.stop(); }
        return vd::rOk();
      }
      if (op == "getTag") {
        if (bad) return vd::rStr(Timing::getTag(1000003));
        mention(tag); return vd::rStr(Timing::getTag(handle[tag]));
      }
      if (op == "stats") {
        size_t h = 1000003;
        if (!bad) { mention(tag); h = handle[tag]; }
        J r = J::obj().set("k", "stats");
        long long n = byH || bad ? Timing::getNumSamples(h) : Timing::getNumSamples(tag);
        r.set("n", n);
        r.set("tot", us(byH ? Timing::getTotalSeconds(h) : Timing::getTotalSeconds(tag)));
        if (n > 0) {
          r.set("mn", us(byH ? Timing::getMinSeconds(h) : Timing::getMinSeconds(tag)));
          r.set("mx", us(byH ? Timing::getMaxSeconds(h) : Timing::getMaxSeconds(tag)));
          r.set("mean", us(byH ? Timing::getMeanSeconds(h) : Timing::getMeanSeconds(tag), 1e6 * 256));
          r.set("var", us(byH ? Timing::getVarianceSeconds(h) : Timing::getVarianceSeconds(tag), 1e12));
          double hz = byH ? Timing::getHz(h) : Timing::getHz(tag);
          r.set("per", us(std::isinf(hz) ? 0 : 1 / hz, 1e6 * 256));
        }
        return r;
      }
      if (op == "badget") {   // every getter refuses a handle that was never given out
        size_t h = 1000003;
        const std::string w = e["what"].str();
        double v = w == "total" ? Timing::getTotalSeconds(h) : w == "mean" ? Timing::getMeanSeconds(h) : w == "num" ? Timing::getNumSamples(h)
          : w == "var" ? Timing::getVarianceSeconds(h) : w == "min" ? Timing::getMinSeconds(h) : w == "max" ? Timing::getMaxSeconds(h)
          : w == "hz" ? Timing::getHz(h) : w == "reset" ? (Timing::reset(h), 0.) : (Timing::getTag(h), 0.);
        return vd::rOk();
      }
      if (op == "reset") { if (byH) { mention(tag); Timing::reset(handle[tag]); } else { Timing::reset(tag); mention(tag); } return vd::rOk(); }
      if (op == "print") {
        const std::string s = e["sort"].str();
        if (s == "none") { std::ostringstream o; Timing::print(o); std::string t = Timing::print(); if (o.str() != t) return vd::rExc("variants differ"); return report(t); }
        SortType k = s == "total" ? SORT_BY_TOTAL : s == "mean" ? SORT_BY_MEAN : s == "std" ? SORT_BY_STD : s == "min" ? SORT_BY_MIN : s == "max" ? SORT_BY_MAX : SORT_BY_NUM_SAMPLES;
        std::ostringstream o; Timing::print(o, k);
        std::string t = Timing::print(k);
        if (o.str() != t) return vd::rExc("variants differ");
        return report(t);
      }
      if (op == "tstr") return vd::rStr(Timing::secondsToTimeString((double)e["s"].num() + 1e-6 * e["us"].num()));
    } catch (const TimerException&) { return vd::rExc("timer"); }
    return vd::rExc("bad op " + op);
  }
  J step(const J& e) { J c = core(e); return obs(c); }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv, true); }
