// Executes comparisons by SM_CHECKSAME and SM_CHECKMEMBERSSAME (spec/Same.tla).
#include "vdrv.hpp"
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <sm/serialization_macros.hpp>
#include <sm/is_binary_equal.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
using vd::J;
using namespace sm::kinematics;

struct Leaf {
  int x, y;
  Leaf() : x(0), y(0) {}
  bool isBinaryEqual(const Leaf& o) const { return SM_CHECKMEMBERSSAME(o, x) && SM_CHECKMEMBERSSAME(o, y); }
};
std::ostream& operator<<(std::ostream& s, const Leaf& l) { return s << l.x << "/" << l.y; }
struct Plain { int v; explicit Plain(int v) : v(v) {} bool operator==(const Plain& o) const { return v == o.v; } };   // cannot be streamed
struct Node {
  int key;
  Leaf leaf;
  Leaf* p;
  boost::shared_ptr<Plain> s;
  boost::shared_ptr<Leaf> t;
  int* ip;
  Leaf pv; int iv;
  Node() : key(0), p(0), ip(0), iv(0) {}
  bool isBinaryEqual(const Node& o) const {
    return SM_CHECKMEMBERSSAME(o, key) && SM_CHECKMEMBERSSAME(o, leaf) && SM_CHECKMEMBERSSAME(o, p) && SM_CHECKMEMBERSSAME(o, s)
        && SM_CHECKMEMBERSSAME(o, t) && SM_CHECKMEMBERSSAME(o, ip);
  }
  bool sameKey(const Node& o, bool verbose) const { return SM_CHECKMEMBERSSAME(o, key, verbose) && SM_CHECKMEMBERSSAME(o, leaf); }
};
static Leaf leaf(const J& j) { Leaf l; l.x = j["x"].num(); l.y = j["y"].num(); return l; }
static void fill(Node& n, const J& v) {
  n.key = v["key"].num(); n.leaf = leaf(v["leaf"]);
  n.p = 0; n.ip = 0; n.s.reset(); n.t.reset();
  if (v["p"].size()) { n.pv = leaf(v["p"][0]); n.p = &n.pv; }
  if (v["ip"].size()) { n.iv = v["ip"][0].num(); n.ip = &n.iv; }
  if (v["s"].size()) n.s = boost::make_shared<Plain>((int)v["s"][0].num());
  if (v["t"].size()) n.t = boost::make_shared<Leaf>(leaf(v["t"][0]));
}
static J names(const std::string& out) {
  J a = J::arr();
  const std::string key = "*** Validation failed on ";
  for (size_t p = out.find(key); p != std::string::npos; p = out.find(key, p + 1)) { size_t q = p + key.size(), e = out.find(':', q); a.push(out.substr(q, e - q)); }
  return a;
}

template <class T> static J kin(const T& a, const T& b) {
  return J::obj().set("k", "kin").set("ab", a.isBinaryEqual(b)).set("ba", b.isBinaryEqual(a)).set("aa", a.isBinaryEqual(a) && a.isBinaryEqual(T(a)));
}
static bool g_tiny;
static double other(double x, double y) { return g_tiny ? std::nextafter(x, 10.0) : y; }
template <int D> static J kinv(bool d1, bool d2, int at) {
  typename UncertainVector<D>::value_t v, w; typename UncertainVector<D>::covariance_t E, F;
  v.setOnes(); E.setIdentity(); w = v; F = E;
  double &x = w(at % D), &y = F(at % D, at / D % D); // the entries that differ
  if (d1) x = other(x, 2); if (d2) y = other(y, 2);
  return kin(UncertainVector<D>(v, E), UncertainVector<D>(w, F));
}

struct D {
  Node n[4];
  D() { SET_CHECKSAME_SILENT; }
  J step(const J& e) {
    const std::string op = e["op"].str();
    if (op == "set") { fill(n[e["i"].num()], e["v"]); return vd::rOk(); }
    if (op == "verbose") { if (e["b"].boolean()) SET_CHECKSAME_VERBOSE; else SET_CHECKSAME_SILENT; return vd::rOk(); }
    if (op == "kin") {
      bool d1 = false, d2 = false, d3 = false;
      const int at = e.has("at") ? (int)e["at"].num() : 0;
      for (auto& x : e["d"].a) { if (x.i == 1) d1 = true; if (x.i == 2) d2 = true; if (x.i == 3) d3 = true; }
      const std::string ty = e["ty"].str();
      g_tiny = e.has("tiny") && e["tiny"].boolean();
      Eigen::Vector4d q(0, 0, 0, 1), q2 = q; Eigen::Vector3d t(1, 2, 3), t2 = t;
      if (d1 && g_tiny) q2[at % 3] = other(q2[at % 3], 0); else if (d1) q2 << 1, 0, 0, 0;
      if (d2) t2[at % 3] = other(t2[at % 3], 7);
      Eigen::Matrix<double, 6, 6> U = Eigen::Matrix<double, 6, 6>::Identity(), U2 = U;
      if (d3) U2(at % 6, at / 6 % 6) = other(U2(at % 6, at / 6 % 6), 2);
      if (ty == "T") return kin(Transformation(q, t), Transformation(q2, t2));
      if (ty == "UT") return kin(UncertainTransformation(q, t, U), UncertainTransformation(q2, t2, U2));
      Eigen::Vector4d p(1, 2, 3, 1), p2 = p; Eigen::Matrix4d V = Eigen::Matrix4d::Identity(), V2 = V;
      if (d1) p2[at % 4] = other(p2[at % 4], 5);
      if (d2) V2(at % 4, at / 4 % 4) = other(V2(at % 4, at / 4 % 4), 2);
      if (ty == "HP") return kin(HomogeneousPoint(p), HomogeneousPoint(p2));
      if (ty == "UHP") return kin(UncertainHomogeneousPoint(p, V), UncertainHomogeneousPoint(p2, V2));
      if (ty == "UV3") return kinv<3>(d1, d2, at);
      if (ty == "UV6") return kinv<6>(d1, d2, at);
      return kin(UncertainVector<1>(1.0, 2.0), UncertainVector<1>(d1 ? other(1.0, 1.5) : 1.0, d2 ? other(2.0, 2.5) : 2.0));
    }
    int i = e["i"].num(), j = e["j"].num(), k = e.has("k") ? e["k"].num() : 0;
    std::ostringstream s;
    std::streambuf* o = std::cout.rdbuf(s.rdbuf());
    const Node &a = n[i], &top = n[j], &third = n[k];
    bool b = false;
    std::string kind = "same";
    if (op == "same") b = SM_CHECKSAME(a, top);
    else if (op == "samev") { if (e["b"].boolean()) { b = SM_CHECKSAME(a, top, true); } else b = SM_CHECKSAME(a, top, false); }
    else if (op == "memv") b = a.sameKey(top, e["b"].boolean());
    else if (op == "differ") { b = !SM_CHECKSAME(a, top); kind = "differ"; }
    else if (op == "and") b = SM_CHECKSAME(a, top) && SM_CHECKSAME(top, third);
    else if (op == "or") { b = SM_CHECKSAME(a, top) || SM_CHECKSAME(top, third); kind = "or"; }
    else if (op == "ptr" && e["sh"].boolean()) {
      boost::shared_ptr<Node> pa, top;
      if (i) pa = boost::make_shared<Node>(n[i]);
      if (j) top = boost::make_shared<Node>(n[j]);
      if (e["dep"].boolean()) { b = sm::isBinaryEqual(pa, top); kind = "fn"; } else
      b = SM_CHECKSAME(pa, top);
    }
    else if (op == "ptr" && e["dep"].boolean()) { const Node *pa = i ? &n[i] : 0, *top = j ? &n[j] : 0; b = sm::isBinaryEqual(pa, top); kind = "fn"; }
    else if (op == "ptr") { Node *pa = i ? &n[i] : 0, *top = j ? &n[j] : 0; b = SM_CHECKSAME(pa, top); }
    std::cout.rdbuf(o);
    return J::obj().set("k", kind).set("b", b).set("names", names(s.str()));
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
