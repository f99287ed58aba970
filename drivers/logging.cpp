// Executes histories on sm::logging (spec/Logging.tla): log statements of every kind,
// configuration calls and loggers that throw, recurse or reconfigure.
#include "vdrv.hpp"
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include "logsites.hpp"
#include <sm/logging/LoggingGlobals.hpp>
#include <sm/logging/Formatter.hpp>
using vd::J;
using namespace sm::logging;

static long long g_now = 0;            // logger time in microseconds
static std::vector<J> g_out;           // what reached a logger
static LogArgs* g_args = nullptr;      // of the statement being executed
static const char* g_fn = nullptr;     // part of the name of the function that contains it

struct Lg : Logger {
  int id; std::string mode; boost::shared_ptr<Logger> other;
  Lg(int id, const std::string& mode) : id(id), mode(mode) {}
  Time currentTimeImplementation() const override { return Time(std::chrono::microseconds(g_now)); }
  static long long time(const std::string& s) {   // seconds with exactly six decimals
    size_t d = s.find('.');
    if (d == std::string::npos || s.size() != d + 7) return -1;
    for (size_t i = 0; i < s.size(); i++) if (i != d && !isdigit((unsigned char)s[i])) return -1;
    return atoll(s.substr(0, d).c_str()) * 1000000 + atoll(s.substr(d + 1).c_str());
  }
  void logImplementation(const LoggingEvent& e) override {
    std::string m = e.message;
    size_t k = m.size();
    while (k > 0 && m[k - 1] == 'x') k--;
    J d = J::obj().set("g", id).set("lv", (int)e.level).set("st", e.streamName).set("m", m.substr(0, k)).set("p", (long long)(m.size() - k)).set("t", time(e.timestring));
    std::string file = e.file ? e.file : "", fn = e.function ? e.function : "";
    bool nested = m.substr(0, k) == "nested";
    d.set("loc", nested || !g_args || (file.find(strstr(g_fn, "Generic") ? "logging.cpp" : "logsites") != std::string::npos && e.line == g_args->line && fn.find(g_fn) != std::string::npos));
    g_out.push_back(d);
    if (mode == "throw") throw std::runtime_error("logger failed");
    if (mode == "throwint") throw 7;
    if (mode == "recurse") { SM_FATAL("recursive %d", 1); SM_FATAL_STREAM("recursive " << 2); }
    if (mode == "reconf") { setLevel(levels::All); enableNamedStream("b.c"); }
    if (mode == "swap") setLogger(other);
  }
};

static void nested() { SM_FATAL("nested"); }

template <int I> struct Generic {
  static void run(int variant, LogArgs& A) {
    Level L = (Level)A.level;
    const std::string name(I == 0 ? "" : "sm.gen");
    switch (variant) {
      case 0: A.line = __LINE__; SM_LOG(L, name, F_); break;
      case 1: A.line = __LINE__; SM_LOG_STREAM(L, name, S_); break;
      case 2: A.line = __LINE__; SM_LOG_COND(true, L, name, F_); break;
      case 3: A.line = __LINE__; SM_LOG_STREAM_NAME(name, L, S_); break;
      case 4: A.line = __LINE__; SM_LOG_COND(A.c(), L, name, F_); break;
      case 5: A.line = __LINE__; SM_LOG_STREAM_COND(A.c(), L, name, S_); break;
      case 8: A.line = __LINE__; SM_LOG_ONCE(L, name, F_); break;
      case 9: A.line = __LINE__; SM_LOG_STREAM_ONCE(L, name, S_); break;
      case 12: A.line = __LINE__; SM_LOG_THROTTLE(A.rate, L, name, F_); break;
      case 13: A.line = __LINE__; SM_LOG_STREAM_THROTTLE(A.rate, L, name, S_); break;
      default: _exit(97);
    }
  }
};

static const char* const kFn[] = {"Sites_ALL", "Sites_FINEST", "Sites_VERBOSE", "Sites_FINER", "Sites_TRACE", "Sites_FINE", "Sites_DEBUG", "Sites_INFO", "Sites_WARN", "Sites_ERROR", "Sites_FATAL"};
typedef void (*RunFn)(int, int, LogArgs&);
static const RunFn kRun[] = {run_ALL, run_FINEST, run_VERBOSE, run_FINER, run_TRACE, run_FINE, run_DEBUG, run_INFO, run_WARN, run_ERROR, run_FATAL};

struct D {
  boost::shared_ptr<Lg> first;
  std::vector<std::string> pool{"sm", "sm.a", "sm.b.c", "sm.gen", "sm.", "sm.smx", "sm.sm"};
  D() { first.reset(new Lg(1, "plain")); setLogger(first); if (freopen("/dev/null", "w", stderr)) {} }
  J step(const J& e) {
    g_out.clear();
    J r = vd::rOk();
    const std::string op = e["op"].str();
    if (op == "exec") {
      LogArgs A;
      A.level = e["lv"].num(); A.cond = e["cond"].boolean(); A.rate = e["rate"].num() / 1e6; A.text = e["m"].str(); A.padding = std::string(e["p"].num(), 'x');
      A.number = e["n"].num();
      if (e["nest"].boolean()) A.nested = nested;
      g_now = e["now"].num();
      g_args = &A;
      int lv = e["lv"].num(), v = e["var"].num(), i = e["inst"].num();
      if (e["gen"].boolean()) { g_fn = "Generic"; if (i == 0) Generic<0>::run(v, A); else Generic<1>::run(v, A); }
      else { g_fn = kFn[lv]; kRun[lv](i, v, A); }
      g_args = nullptr;
      r = J::obj().set("k", "exec").set("ev", A.evals).set("ce", A.condEvals);
    } else if (op == "level") setLevel((Level)e["lv"].num());
    else if (op == "enable") enableNamedStream(e["s"].str());
    else if (op == "disable") disableNamedStream(e["s"].str());
    else if (op == "isOn") r = vd::rBool(isNamedStreamEnabled(e["s"].str()));
    else if (op == "logger") {
      const std::string m = e["mode"].str();
      if (m == "null") setLogger(boost::shared_ptr<Logger>());
      else { boost::shared_ptr<Lg> l(new Lg(e["g"].num(), m)); l->other = first; setLogger(l); }
    } else if (op == "fromString") { g_now = 0; r = vd::rInt((int)levels::fromString(e["s"].str())); g_out.clear(); }
    else if (op == "shutdown") g_logging_globals.shutdown();
    else return vd::rExc("bad op");
    J out = J::arr(); for (auto& d : g_out) out.push(d);
    J on = J::arr(); for (auto& n : pool) if (g_logging_globals.isNamedStreamEnabled(n)) on.push(n);
    boost::shared_ptr<Lg> cur = boost::dynamic_pointer_cast<Lg>(getLogger());
    return r.set("out", out).set("lvl", (int)getLevel()).set("on", on).set("g", cur ? cur->id : 0);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv, true); }
