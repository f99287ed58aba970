// Executes the random number generator of sm_random (spec/Random.tla).
#include "vdrv.hpp"
#include <cstdint>
#include <thread>
#include <sm/random.hpp>
#include <sm/eigen/random.hpp>
using vd::J;
static std::string hex(double d) { uint64_t u; std::memcpy(&u, &d, 8); char b[24]; std::snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b; }
static double real(const std::string& s) { if (s[0] == 'x') { uint64_t u = std::strtoull(s.c_str() + 1, 0, 16); double d; std::memcpy(&d, &u, 8); return d; } return std::strtod(s.c_str(), 0); }
static std::string one(const J& e, bool& in, double* out = 0) {
  const std::string d = e["d"].str();
  if (d == "lui") { int a = (int)std::strtol(e["a"].str().c_str(), 0, 10), b = (int)std::strtol(e["b"].str().c_str(), 0, 10), v = sm::random::randLUi(a, b); in = in && a <= v && v < b; if (out) *out = ((double)v - a + 0.5) / ((double)b - a); return std::to_string(v); }
  double v;
  if (d == "lu") { double a = real(e["a"].str()), b = real(e["b"].str()); v = sm::random::randLU(a, b); in = in && a <= v && v < b; if (out) *out = (v - a) / (b - a); return hex(v); }
  bool u = d == "uniform" || d == "rand";
  v = d == "uniform" ? sm::random::uniform() : d == "rand" ? sm::random::rand() : d == "normal" ? sm::random::normal() : sm::random::randn();
  in = in && (u ? 0 <= v && v < 1 : std::isfinite(v));
  if (out) *out = u ? v : 0.5 * std::erfc(-v / std::sqrt(2.0));
  return hex(v);
}
static uint64_t num(const std::string& s) { return std::strtoull(s.c_str(), 0, 10); }
static char* g_self;
struct D {
  // calls from several threads, one at a time, are one history
  J step(const J& e) {
    if (!e.has("th") || !e["th"].boolean()) return call(e);
    J r; std::thread t([&] { r = call(e); }); t.join(); return r;
  }
  J call(const J& e) {
    const std::string op = e["op"].str();
    bool in = true; J v = J::arr();
    if (op == "seed") { sm::random::seed(num(e["s"].str())); return vd::rOk(); }
    if (op == "draw") { v.push(one(e, in)); return J::obj().set("k", "vals").set("v", v).set("in", in); }
    if (op == "vec") { Eigen::VectorXd x = sm::eigen::randn(e["n"].num()); for (int i = 0; i < x.size(); ++i) { v.push(hex(x(i))); in = in && std::isfinite(x(i)); } return J::obj().set("k", "vals").set("v", v).set("in", in); }
    if (op == "two") {
      double a[8], b[8]; bool eq = true;
      sm::random::seed(num(e["s"].str())); for (double& x : a) x = sm::random::uniform();
      sm::random::seed(num(e["s2"].str())); for (double& x : b) x = sm::random::uniform();
      for (int i = 0; i < 8; ++i) eq = eq && a[i] == b[i];
      sm::random::seed(num(e["s"].str())); for (double& x : a) x = sm::random::normal();
      sm::random::seed(num(e["s2"].str())); for (double& x : b) x = sm::random::normal();
      bool eqn = true; for (int i = 0; i < 8; ++i) eqn = eqn && a[i] == b[i];
      return J::obj().set("k", "differ").set("b", !eq && !eqn);
    }
    if (op == "bulk") {
      long c[8] = {0}; double p;
      for (int i = 0, n = e["n"].num(); i < n; ++i) { one(e, in, &p); int k = (int)(p * 8); c[k < 0 ? 0 : k > 7 ? 7 : k]++; }
      for (long x : c) v.push(x);
      return J::obj().set("k", "counts").set("c", v).set("in", in);
    }
    if (op == "fresh") {
      std::ostringstream os; e.write(os);
      int p[2]; if (pipe(p)) return vd::rExc("pipe");
      pid_t c = fork();
      if (!c) { dup2(p[1], 1); close(p[0]); close(p[1]); std::string s = os.str(); execl("/proc/self/exe", g_self, "--fresh", s.c_str(), (char*)0); _exit(98); }
      close(p[1]); std::string t; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) t.append(b, k); close(p[0]); int st; waitpid(c, &st, 0);
      std::istringstream is(t); std::string w; is >> w; in = w == "1"; while (is >> w) v.push(w);
      return J::obj().set("k", "vals").set("v", v).set("in", in);
    }
    return vd::rExc("bad op");
  }
};
int main(int argc, char** argv) {
  g_self = argv[0];
  if (argc == 3 && !std::strcmp(argv[1], "--fresh")) {
    J e = J::parse(argv[2]); bool in = true; std::string o;
    sm::random::seed(num(e["s"].str()));
    for (size_t i = 0; i < e["ds"].size(); ++i) o += " " + one(e["ds"][i], in);
    std::printf("%d%s\n", in ? 1 : 0, o.c_str()); return 0;
  }
  return vd::run<D>(argc, argv);
}
