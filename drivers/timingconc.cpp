// Threads using sm::timing under the deterministic scheduler (spec/TimingConc.tla).
// Every thread has its own clock; freed memory must not be touched any more.
#include "sched_main.hpp"
#include "timingreport.hpp"
#include <malloc.h>
#include <sys/time.h>
#include <sm/timing/Timer.hpp>
using namespace sm::timing;

static thread_local long long g_us = 1700000000LL * 1000000;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = g_us / 1000000; tv->tv_usec = g_us % 1000000; return 0; }
// memory freed by the library while a call is executed is never used again and must not be accessed
static thread_local bool g_in = false;
void* operator new(size_t n) { void* p = malloc(n); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p && g_in) { vs::Quiet q; bool o = g_in; g_in = false; vs::dead(p, malloc_usable_size(p)); g_in = o; } else free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }

struct Sc {
  const J& s;
  explicit Sc(const J& s) : s(s) {}
  static void ev(int t, const char* k, const J& o, const char* rk = 0, const J& r = J()) {
    J e = o; e.set("t", t).set("k", k); if (rk) e.set(rk, r); vs::log(e.dump());
  }
  struct Local { std::map<std::string, size_t> handle; std::map<long long, Timer*> timers; std::map<long long, long long> began; };
  void op(int t, const J& o, Local& l) {
    const std::string n = o["op"].str(), tag = o.has("tag") ? o["tag"].str() : "";
    const bool h = o.has("h") && o["h"].boolean();
    const size_t hd = h || n == "getTag" ? l.handle.at(tag) : 0;
    Timer* timer = n == "stop" || n == "drop" ? l.timers.at(o["id"].num()) : 0;
    const long id = o.has("id") ? o["id"].num() : 0;
    const std::string sort = o.has("sort") ? o["sort"].str() : "";
    J c = o;
    if (timer) { g_us += o["d"].num(); c.set("d", g_us - l.began.at(id)); }  // what the timer measures: the time on this thread's clock
    ev(t, "call", c);
    J r = vd::rOk();
    double v = 0; std::string text; size_t got = 0;
    {
      vs::Armed armed; g_in = true;
      try {
        if (n == "new") { void* m = malloc(sizeof(Timer)); timer = h ? new (m) Timer(hd) : new (m) Timer(tag); }
        else if (n == "stop") timer->stop();
        else if (n == "drop") timer->~Timer();
        else if (n == "handle") got = Timing::getHandle(tag);
        else if (n == "getTag") text = Timing::getTag(hd);
        else if (n == "reset") { if (h) Timing::reset(hd); else Timing::reset(tag); }
        else if (n == "num") v = h ? Timing::getNumSamples(hd) : Timing::getNumSamples(tag);
        else if (n == "total") v = h ? Timing::getTotalSeconds(hd) : Timing::getTotalSeconds(tag);
        else if (n == "mean") v = h ? Timing::getMeanSeconds(hd) : Timing::getMeanSeconds(tag);
        else if (n == "min") v = h ? Timing::getMinSeconds(hd) : Timing::getMinSeconds(tag);
        else if (n == "max") v = h ? Timing::getMaxSeconds(hd) : Timing::getMaxSeconds(tag);
        else if (n == "var") v = h ? Timing::getVarianceSeconds(hd) : Timing::getVarianceSeconds(tag);
        else if (n == "hz") { v = h ? Timing::getHz(hd) : Timing::getHz(tag); v = 1 / v; }
        else if (n == "print") {
          if (sort == "none") text = Timing::print();
          else text = Timing::print(sort == "total" ? SORT_BY_TOTAL : sort == "mean" ? SORT_BY_MEAN : sort == "std" ? SORT_BY_STD : sort == "min" ? SORT_BY_MIN : sort == "max" ? SORT_BY_MAX : SORT_BY_NUM_SAMPLES);
        }
        else _exit(97);
      } catch (const std::exception& x) { r = vd::rExc("exception"); }
      g_in = false;
    }
    if (r["k"].str() == "ok") {
      if (n == "new") { l.timers[id] = timer; l.began[id] = g_us; }
      else if (n == "stop") timer->~Timer();
      else if (n == "handle") { l.handle[tag] = got; r = vd::rInt((long long)got); }
      else if (n == "getTag") r = vd::rStr(text);
      else if (n == "print") r = report(text);
      else if (n == "num") r = vd::rInt((long long)v);
      else if (n != "reset" && n != "drop") r = vd::rInt(us(v, n == "mean" || n == "hz" ? 1e6 * 256 : n == "var" ? 1e12 : 1e6));
    }
    ev(t, "ret", J::obj().set("op", n), "r", r);
  }
  void body() {
    Local main;
    for (auto& o : s["pre"].a) op(0, o, main);
    std::vector<pthread_t> th(s["threads"].size());
    struct Arg { Sc* sc; int i; Local l; };
    std::vector<Arg> args;
    for (size_t i = 0; i < th.size(); i++) { args.push_back(Arg{this, (int)i, Local()}); args.back().l.handle = main.handle; }
    for (size_t i = 0; i < th.size(); i++)
      pthread_create(&th[i], nullptr, [](void* p) -> void* {
        vs::setQuiet(true);
        Arg* a = (Arg*)p;
        for (auto& o : a->sc->s["threads"][a->i].a) a->sc->op(a->i + 1, o, a->l);
        return nullptr;
      }, &args[i]);
    for (auto& x : th) pthread_join(x, nullptr);
    for (auto& o : s["final"].a) op(0, o, main);
    ev(0, "end", J::obj().set("op", "program"));
  }
};
int main(int argc, char** argv) { return vs::runSchedules<Sc>(argc, argv); }
