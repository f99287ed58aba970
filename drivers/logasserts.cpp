// Executes histories on the assertion macros of sm/logging/assert.h (spec/LogAsserts.tla).
#undef NDEBUG
#define NS debug
#include "vdrv.hpp"
#include "logasserts.hpp"
#include <boost/make_shared.hpp>
#include <csignal>
#include <sm/logging/LoggingGlobals.hpp>
using vd::J;
using namespace sm::logging;
void runRelease(int x, int y, bool entered, int site, int* out);

static std::string g_order;            // L: a fatal message, o: another one, T: a breakpoint trap
static std::string g_text;
struct Lg : Logger {
  Time currentTimeImplementation() const override { return Time(std::chrono::microseconds(0)); }
  void logImplementation(const LoggingEvent& e) override { g_order += e.level == levels::Fatal ? "L" : "o"; g_text += e.message; g_text += "\n"; }
};
static void onTrap(int) { g_order += "T"; }

struct D {
  D() { sm::logging::setLogger(boost::make_shared<Lg>()); signal(SIGTRAP, onTrap); }
  J step(const J& e) {
    if (e["op"].str() == "level") { sm::logging::setLevel((Level)e["l"].num()); return vd::rOk(); }
    static const char* cond[] = {"s.g(s.x) > 0", "s.g(s.x)", "s.g(s.x) == s.y", "s.g(s.x) && s.y", "s.y || s.g(s.x)", "s.g(s.x) & 1", "s.g(s.x) ? s.y : !s.y", "!s.g(s.x)", "s.g(s.x) % 2 == 0", "s.g(s.x) > 0"};
    const std::string m = e["op"].str();
    const int site = (m == "ASSERT" ? 0 : m == "MSG" ? 10 : m == "CMD" ? 20 : 30) + e["c"].num();
    g_order.clear(); g_text.clear();
    int out[4];
    if (e["nd"].boolean()) runRelease(e["x"].num(), e["y"].num(), e["ent"].boolean(), site, out);
    else {
      debug::Site s; s.x = e["x"].num(); s.y = e["y"].num(); s.entered = e["ent"].boolean();
      debug::run(s, site);
      out[0] = s.evals; out[1] = s.cmds; out[2] = s.elses; out[3] = s.line;
    }
    const auto has = [](const std::string& t) { return g_text.find(t) != std::string::npos; };
    return J::obj().set("k", "ran").set("order", g_order).set("evals", out[0]).set("cmds", out[1]).set("elses", out[2])
      .set("file", has("logasserts")).set("line", has(std::to_string(out[3]))).set("cond", has(cond[e["c"].num()]))
      .set("msg", has("the value is " + std::to_string(e["x"].num()) + " of site"));
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
