// Executes calls of sm_common's string routines (spec/Strings.tla).
#include <algorithm>
#include "vdrv.hpp"
#include <list>
#include <sm/string_routines.hpp>
#include <sm/progress_info.hpp>
using vd::J;
static J rText(const std::string& s) { return J::obj().set("k", "text").set("s", J::fromBytes(s)); }
static double dy(const J& i, const J& k) { return std::ldexp((double)i.num(), -(int)k.num()); }
static std::vector<int> ints(const J& l) { std::vector<int> v; for (auto& x : l.a) v.push_back(x.i); return v; }

template <class F> static J captured(F f) {
  std::ostringstream s;
  std::streambuf* o = std::cout.rdbuf(s.rdbuf());
  try { f(); } catch (const std::runtime_error& x) { std::cout.rdbuf(o); return vd::rExc("runtime_error"); } catch (...) { std::cout.rdbuf(o); return vd::rExc("other"); }
  std::cout.rdbuf(o);
  return rText(s.str());
}

struct D {
  std::vector<std::string> names;
  ~D() { for (auto& n : names) unsetenv(n.c_str()); }
  J step(const J& e) {
    alarm(4);   // a call that does not return counts as a crash
    J r = go(e);
    alarm(0);
    return r;
  }
  J go(const J& e) {
    const std::string op = e["op"].str();
    bool alt = e.has("alt") && e["alt"].boolean();
    if (op == "replace") { if (alt && e["n"].num() == 0) return rText(sm::replace(e["s"].bytes(), (char)e["t"].num(), (char)e["c"].num())); return rText(sm::replace(e["s"].bytes(), (char)e["t"].num(), (char)e["c"].num(), (unsigned)e["n"].num())); }
    if (op == "rreplace") { if (alt && e["n"].num() == 0) return rText(sm::replace_reverse(e["s"].bytes(), (char)e["t"].num(), (char)e["c"].num())); return rText(sm::replace_reverse(e["s"].bytes(), (char)e["t"].num(), (char)e["c"].num(), (unsigned)e["n"].num())); }
    if (op == "lpad") return rText(sm::leading_pad(e["s"].bytes(), (unsigned)e["n"].num(), (char)e["c"].num()));
    if (op == "trail") return rText(sm::ensureTrailingBackslash(e["s"].bytes()));
    if (op == "ts") return rText(alt ? sm::s_tuple((long)e["i"].num()) : sm::ts((int)e["i"].num()));
    if (op == "padint") return rText(alt ? sm::padded((long)e["i"].num(), (unsigned)e["n"].num(), (char)e["c"].num()) : sm::padded((int)e["i"].num(), (unsigned)e["n"].num(), (char)e["c"].num()));
    if (op == "padstr") return rText(sm::padded(e["s"].bytes(), (unsigned)e["n"].num(), (char)e["c"].num()));
    if (op == "paddbl") return rText(sm::padded(dy(e["i"], e["k"]), (unsigned)e["n"].num(), (unsigned)e["p"].num()));
    if (op == "fixed") return rText(sm::fixedFloat(dy(e["i"], e["k"]), (unsigned)e["p"].num()));
    if (op == "sci") return rText(sm::scientific(dy(e["i"], e["k"]), (unsigned)e["n"].num(), (unsigned)e["p"].num()));
    if (op == "tuple") {
      std::vector<int> v = ints(e["l"]);
      switch (v.size()) {
        case 1: return rText(sm::s_tuple(v[0]));
        case 2: return rText(sm::s_tuple(v[0], (long)v[1]));
        case 3: return rText(sm::s_tuple(v[0], v[1], v[2]));
        case 4: return rText(sm::s_tuple(v[0], v[1], sm::ts(v[2]), v[3]));
        case 5: return rText(sm::s_tuple(v[0], v[1], v[2], v[3], v[4]));
        case 6: return rText(sm::s_tuple(v[0], v[1], v[2], v[3], v[4], v[5]));
        case 7: return rText(sm::s_tuple(v[0], v[1], v[2], v[3], v[4], v[5], v[6]));
      }
    }
    if (op == "arr") {
      std::vector<int> v = ints(e["l"]);
      if (alt) { static int none; return rText(sm::arrToString(v.empty() ? &none : v.data(), (unsigned)v.size())); }
      std::list<int> l(v.begin(), v.end());
      return rText(sm::arrToString(l.begin(), l.end()));
    }
    if (op == "list") {
      std::vector<int> v = ints(e["l"]);
      std::ostringstream s;
      sm::toStream(s, v.begin(), v.end(), e["d"].bytes(), e["pre"].bytes(), e["post"].bytes());
      return rText(s.str());
    }
    if (op == "plist") {
      std::vector<double> v;
      for (auto& x : e["l"].a) v.push_back(std::ldexp((double)x.i, -(int)e["k"].num()));
      return rText(sm::paddedToString((int)e["n"].num(), (int)e["p"].num(), v.begin(), v.end(), e["d"].bytes(), e["pre"].bytes(), e["post"].bytes()));
    }
    if (op == "setenv") { std::string n = e["s"].bytes(); names.push_back(n); return setenv(n.c_str(), e["v"].bytes().c_str(), 1) == 0 ? vd::rOk() : vd::rExc("setenv"); }
    if (op == "unsetenv") { unsetenv(e["s"].bytes().c_str()); return vd::rOk(); }
    if (op == "subst") return rText(sm::substituteEnvVars(e["s"].bytes()));
    if (op == "progress") { int i = e["i"].num(), n = 1 << e["k"].num(); if (alt) return captured([&] { sm::showProgress((double)i / n); }); return captured([&] { sm::showProgress(i, n); }); }
    if (op == "progress0") { int i = e["i"].num(), n = e["n"].num(); return captured([&] { sm::showProgress(i, n); }); }
    return vd::rExc("bad op");
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
