// Executes histories on sm::logging::Formatter and StdOutLogger (spec/Formatter.tla).
#include "vdrv.hpp"
#include <boost/thread.hpp>
#include <sm/logging/StdOutLogger.hpp>
using vd::J;
using namespace sm::logging;

struct D {
  std::unique_ptr<StdOutLogger> lg;
  J step(const J& e) {
    const std::string op = e["op"].str();
    if (op == "new") {
      if (e["env"].boolean()) setenv("SMCONSOLE_FORMAT", e["f"].str().c_str(), 1); else unsetenv("SMCONSOLE_FORMAT");
      lg.reset(new StdOutLogger);
    } else if (op == "init") {
      std::string f = e["f"].str();
      lg->formatter.init(f.c_str());
      f.assign(f.size(), '#');
    } else if (op == "color") lg->formatter.doColor_ = e["on"].boolean();
    else if (op == "extra") lg->formatter.extra_fixed_tokens_[e["n"].str()] = e["v"].str();
    else if (op == "unextra") lg->formatter.extra_fixed_tokens_.erase(e["n"].str());
    else {
      const J& v = e["e"];
      const std::string st = v["st"].str(), file = v["file"].str(), fn = v["fn"].str(), m = v["m"].str();
      LoggingEvent ev(st.c_str(), (Level)v["lv"].num(), file.c_str(), (int)v["line"].num(), fn.c_str(), m.c_str(), v["t"].str());
      std::string line;
      std::stringstream thr;
      auto body = [&]() {
        thr << boost::this_thread::get_id();
        if (op == "logger") {
          std::stringstream ss;
          std::streambuf* old = std::cout.rdbuf(ss.rdbuf());
          lg->log(ev);
          std::cout.rdbuf(old);
          line = ss.str();
        } else { std::stringstream ss; lg->formatter.print(ev, ss); line = ss.str(); }
      };
      if (op == "thread") { boost::thread t(body); t.join(); } else body();
      return J::obj().set("k", "line").set("s", line).set("thr", thr.str()).set("esc", "\033");
    }
    return vd::rOk().set("f", lg->formatter.format_);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
