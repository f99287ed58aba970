// Executes calls of sm_common's numerical helpers (spec/Numerics.tla).
#include "vdrv.hpp"
#include <cmath>
#include <limits>
#include <sm/numerical_comparisons.hpp>
#include <sm/maths.hpp>
#include <sm/round.hpp>
using vd::J;

template <class T> static J verdict(T a, T b, T e) {
  return J::obj().set("eq", sm::approximatelyEqual(a, b, e)).set("gt", sm::definitelyGreaterThan(a, b, e)).set("lt", sm::definitelyLessThan(a, b, e));
}
template <class T> static J verdict(T a, T b) {
  return J::obj().set("eq", sm::approximatelyEqual(a, b)).set("gt", sm::definitelyGreaterThan(a, b)).set("lt", sm::definitelyLessThan(a, b));
}
template <class F> static bool throwsInvalid(F f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; }
template <class T> static J cmp(const J& e) {
  int sc = e.has("scale") ? e["scale"].num() : 0;
  T a = std::ldexp((T)e["a"].num(), sc - (int)e["k"].num()), b = std::ldexp((T)e["b"].num(), sc - (int)e["k"].num()), eps = std::ldexp((T)e["m"].num(), -(int)e["j"].num());
  if (e["m"].num() <= 0) {
    bool all = throwsInvalid([&] { sm::approximatelyEqual(a, b, eps); }) && throwsInvalid([&] { sm::definitelyGreaterThan(a, b, eps); }) && throwsInvalid([&] { sm::definitelyLessThan(a, b, eps); });
    return all ? vd::rExc("invalid_argument") : vd::rExc("other");
  }
  return J::obj().set("k", "cmp").set("ab", verdict(a, b, eps)).set("ba", verdict(b, a, eps));
}
template <class T> static J ulp(const J& e) {
  T u = std::numeric_limits<T>::epsilon(), s = e["neg"].boolean() ? -1 : 1;
  T a = s * (1 + e["a"].num() * u), b = s * (1 + e["b"].num() * u);
  return J::obj().set("k", "cmp").set("ab", verdict(a, b)).set("ba", verdict(b, a));
}
static double fromBits(const std::string& s) { unsigned long long v = strtoull(s.c_str(), 0, 16); double d; memcpy(&d, &v, 8); return d; }
template <class T> static J laws(T a, T b, T eps) {
  return J::obj().set("k", "laws").set("ab", verdict(a, b, eps)).set("ba", verdict(b, a, eps)).set("aa", verdict(a, a, eps)).set("order", a < b ? -1 : a > b ? 1 : 0)
                 .set("wider", verdict(a, b, eps + eps));
}
template <class T> static J rounding(const std::string& op, const J& e) {
  long double B = e["base"].num() ? std::ldexp(1.0L, (int)e["base"].num()) : 0.0L;
  T x = (T)(B + e["q"].num() / 4.0L);
  int nudge = e["nudge"].num();
  if (nudge) x = std::nextafter(x, nudge < 0 ? (T)0 : std::numeric_limits<T>::infinity());
  bool neg = e["neg"].boolean();
  if (neg) x = -x;
  long double y = op == "round" ? (long double)sm::round(x) : op == "rint" ? (long double)sm::rint(x) : (long double)sm::lrint(x);
  long double r = neg ? y + B : y - B;
  if (std::fabs(r) > 2e9L || r != std::floor(r)) return vd::rExc("far off");
  return vd::rInt((long long)r);
}

// the roots of a x^2 + b x + c are those of (a / 2^t) x^2 + b x + 2^t c divided by 2^t
static std::pair<double, double> scaled(const J& e, double a, double b, double c) {
  int t = e.has("t") ? (int)e["t"].num() : 0;
  std::pair<double, double> p = sm::solveQuadratic(std::ldexp(a, -t), b, std::ldexp(c, t));
  return std::make_pair(std::ldexp(p.first, -t), std::ldexp(p.second, -t));
}

struct D {
  J step(const J& e) {
    const std::string op = e["op"].str(), ty = e.has("ty") ? e["ty"].str() : "";
    if (op == "cmp") return ty == "double" ? cmp<double>(e) : ty == "float" ? cmp<float>(e) : cmp<long double>(e);
    if (op == "ulp") return ty == "double" ? ulp<double>(e) : ulp<float>(e);
    if (op == "laws") {
      double a = fromBits(e["ba"].str()), b = fromBits(e["bb"].str()), x = fromBits(e["be"].str());
      if (ty == "float") return laws<float>((float)a, (float)b, (float)x);
      return laws<double>(a, b, x);
    }
    if (op == "round" || op == "rint" || op == "lrint") return ty == "double" ? rounding<double>(op, e) : rounding<float>(op, e);
    if (op == "sgn") {
      long n = e["a"].num(); int k = e["k"].num();
      if (ty == "double") return vd::rInt(sm::sgn(std::ldexp((double)n, -k)));
      if (ty == "float") return vd::rInt(sm::sgn(std::ldexp((float)n, -k)));
      if (ty == "int") return vd::rInt(sm::sgn((int)n));
      if (ty == "char") return vd::rInt(sm::sgn((signed char)n));
      return vd::rInt(sm::sgn(n * 1000000000L));
    }
    if (op == "roots") {
      double a = e["a"].num(), x1 = e["x1"].num(), x2 = e["x2"].num();
      std::pair<double, double> p = scaled(e, a, -a * (x1 + x2), a * x1 * x2);
      bool ex = p.first == std::floor(p.first) && p.second == std::floor(p.second) && std::fabs(p.first) < 2e9 && std::fabs(p.second) < 2e9;
      return J::obj().set("k", "roots").set("exact", ex).set("x", ex ? J::arr().push((long long)p.first).push((long long)p.second) : J::arr());
    }
    if (op == "quad") {
      double a = e["a"].num(), b = e["b"].num(), c = e["c"].num();
      std::pair<double, double> p;
      try { p = scaled(e, a, b, c); } catch (const std::runtime_error&) { return vd::rExc("runtime_error"); }
      typedef __float128 Q;
      auto mag = [](Q x) { return x < 0 ? -x : x; };
      Q tol = 1e-14;
      auto solves = [&](Q x) { return mag((Q)a * x * x + (Q)b * x + c) <= tol * (mag((Q)a * x * x) + mag((Q)b * x) + mag((Q)c)); };
      Q x = p.first, y = p.second;
      return J::obj().set("k", "quad").set("first", (bool)solves(x)).set("second", (bool)solves(y)).set("sum", (bool)(mag(a * (x + y) + b) <= tol * (mag(a * x) + mag(a * y) + mag((Q)b))))
                     .set("product", (bool)(mag(a * x * y - c) <= tol * (mag(a * x * y) + mag((Q)c))));
    }
    return vd::rExc("bad op");
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
