// Runs threads of log statements and configuration calls on sm::logging under the
// deterministic scheduler (spec/LoggingConc.tla).
//
// Scenario: {"modes": {"g": mode}, "pre": [op...], "threads": [[op...]...], "final": [op...]}
#include "sched_main.hpp"
#include <boost/shared_ptr.hpp>
#include <sm/logging.hpp>
#include <sm/logging/LoggingGlobals.hpp>
using vd::J;
using namespace sm::logging;

static thread_local int g_t = 0;    // number of the calling thread in the scenario
static thread_local int g_num = 0;  // the statement it is executing
static boost::shared_ptr<Logger>* g_first;

static void ev(int t, const char* k, const std::string& op, J extra) {
  extra.set("t", t).set("k", k).set("op", op);
  vs::log(extra.dump());
}

struct Lg : Logger {
  int id; std::string mode;
  Lg(int id, const std::string& mode) : id(id), mode(mode) {}
  Time currentTimeImplementation() const override { return Time(); }
  void logImplementation(const LoggingEvent& e) override {
    vs::Quiet quiet;
    int n = atoi(e.message);
    // the text must be exactly "<n>:<n>"
    char want[64]; snprintf(want, sizeof want, "%d:%d", n, n);
    ev(g_t, "enter", "log", J::obj().set("g", id).set("n", std::string(want) == e.message ? n : -1).set("lv", (int)e.level).set("st", e.streamName));
    {
      vs::Armed armed;
      vs::point();
      if (mode == "recurse") { SM_FATAL("900:%d", 900); SM_FATAL_STREAM("901:" << 901); }
      if (mode == "reconf") { setLevel(levels::All); }
      if (mode == "swap") setLogger(*g_first);
      vs::point();
    }
    ev(g_t, "leave", "log", J::obj());
    if (mode == "throw") throw std::runtime_error("logger failed");
    if (mode == "throwint") throw 7;
  }
};
struct Bury { void operator()(Lg* l) const { l->~Lg(); memset((void*)l, 0xdd, sizeof(Lg)); vs::dead(l, sizeof(Lg)); } };
static boost::shared_ptr<Logger> make(int id, const std::string& mode) {
  void* m = aligned_alloc(64, (sizeof(Lg) + 63) / 64 * 64);
  return boost::shared_ptr<Logger>(new (m) Lg(id, mode), Bury());
}

static void site(int i, int n) {
  switch (i) {
    case 0: SM_INFO("%d:%d", n, n); break;
    case 1: SM_INFO_STREAM(n << ":" << n); break;
    case 2: SM_DEBUG("%d:%d", n, n); break;
    case 3: SM_DEBUG_STREAM(n << ":" << n); break;
    case 4: SM_WARN_NAMED("a", "%d:%d", n, n); break;
    case 5: SM_WARN_STREAM_NAMED("a", n << ":" << n); break;
    case 6: SM_INFO_STREAM_NAMED("a", n << ":" << n); break;
    case 7: SM_FATAL("%d:%d", n, n); break;
    case 8: SM_ERROR_STREAM_THROTTLE(-1.0, n << ":" << n); break;
    case 9: SM_LOG_STREAM(levels::Error, std::string(), n << ":" << n); break;
    default: _exit(97);
  }
}

struct Sc {
  const J& s;
  explicit Sc(const J& s) : s(s) {}
  void op(int t, const J& o) {
    const std::string n = o["op"].str();
    J call = J::obj();
    for (auto& p : o.o) if (p.first != "op") call.set(p.first, p.second);
    ev(t, "call", n, call);
    long long v = 0;
    {
      vs::Armed armed;
      if (n == "exec") { g_num = o["n"].num(); site(o["site"].num(), g_num); }
      else if (n == "level") setLevel((Level)o["lv"].num());
      else if (n == "getLevel") v = (int)getLevel();
      else if (n == "enable") enableNamedStream(o["s"].str());
      else if (n == "disable") disableNamedStream(o["s"].str());
      else if (n == "isOn") v = isNamedStreamEnabled(o["s"].str());
      else if (n == "logger") {
        int g = o["g"].num();
        setLogger(g == 0 ? boost::shared_ptr<Logger>() : make(g, s["modes"][std::to_string(g)].str()));
      } else if (n == "getLogger") { boost::shared_ptr<Logger> l = getLogger(); vs::Quiet q; Lg* p = dynamic_cast<Lg*>(l.get()); v = p ? p->id : -1; }
      else if (n == "shutdown") g_logging_globals.shutdown();
      else _exit(97);
    }
    ev(t, "ret", n, J::obj().set("v", v));
  }
  void body() {
    g_first = new boost::shared_ptr<Logger>(make(1, s["modes"]["1"].str()));
    setLogger(*g_first);
    vs::track(&g_logging_globals, sizeof g_logging_globals);
    for (auto& o : s["pre"].a) op(0, o);
    std::vector<pthread_t> th(s["threads"].size());
    struct Arg { Sc* sc; int i; };
    std::vector<Arg> args;
    for (size_t i = 0; i < th.size(); i++) args.push_back(Arg{this, (int)i});
    for (size_t i = 0; i < th.size(); i++)
      pthread_create(&th[i], nullptr, [](void* p) -> void* {
        vs::setQuiet(true);
        Arg* a = (Arg*)p;
        g_t = a->i + 1;
        for (auto& o : a->sc->s["threads"][a->i].a) a->sc->op(a->i + 1, o);
        return nullptr;
      }, &args[i]);
    for (auto& x : th) pthread_join(x, nullptr);
    for (auto& o : s["final"].a) op(0, o);
    ev(0, "end", "program", J::obj());
  }
};
int main(int argc, char** argv) { return vs::runSchedules<Sc>(argc, argv); }
