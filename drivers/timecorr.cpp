// Executes histories on sm::timing::TimestampCorrector<double|int64> (spec/TimeCorr.tla).
#include "vdrv.hpp"
#include <algorithm>
#include <cstdint>
#include <sm/timing/TimestampCorrector.hpp>
using vd::J;

template <class T>
struct C {
  typedef sm::timing::TimestampCorrector<T> TC;
  TC tc;
  T bx, by, unit;
  static const bool I = std::is_integral<T>::value;
  J val(double v) { if (!(std::fabs(v) < 1e6)) return vd::rExc("out of range"); return J::obj().set("k", "val").set("v", (long long)std::llround(v * 1024)); }
  // real local time -> model units
  J time(T t) { return val((double)(t - by) / (double)unit); }
  J obs(J r) {
    double s = (double)tc.span() / (double)unit;
    long long si = std::llround(s);
    return r.set("n", (long long)tc.convexHullSize()).set("sp", std::fabs(s - si) < 1e-3 ? si : -77777);
  }
  T X(long long x) { return bx + unit * (T)x; }
  T Y(long long y) { return by + unit * (T)y; }
  J core(const J& e) {
    const std::string op = e["op"].str();
    const TC& c = tc;
    try {
      if (op == "corr") return time(tc.correctTimestamp(X(e["x"].num()), Y(e["y"].num())));
      if (op == "corr3") return time(tc.correctTimestamp(X(e["x"].num()), Y(e["y"].num()), unit * (T)e["per"].num()));
      if (op == "get") return time(c.getLocalTime(X(e["x"].num())));
      if (op == "slope") return val(c.getSlope());
      // extrapolated to remote time 0 of the model
      if (op == "offset") return val((c.getOffset() + c.getSlope() * (double)bx - (double)by) / (double)unit);
      if (op == "reset") { tc.reset(); return vd::rOk(); }
    } catch (const typename TC::TimeWentBackwardsException&) { return vd::rExc("backwards"); }
    catch (const typename TC::NotInitializedException&) { return vd::rExc("notinit"); }
    return vd::rExc("bad op " + op);
  }
  J step(const J& e) { return obs(core(e)); }
};

struct D {
  C<double> d;
  C<std::int64_t> i;
  bool isInt = false;
  J step(const J& e) {
    if (e["op"].str() == "init") {
      isInt = e["int"].boolean();
      d.bx = i.bx = atoll(e["bx"].str().c_str());
      d.by = i.by = atoll(e["by"].str().c_str());
      if (isInt) i.unit = atoll(e["unit"].str().c_str()); else d.unit = atof(e["unit"].str().c_str());
      return isInt ? i.obs(vd::rOk()) : d.obs(vd::rOk());
    }
    return isInt ? i.step(e) : d.step(e);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
