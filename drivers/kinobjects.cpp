// Executes copying, comparison and serialisation of kinematic objects (spec/KinObjects.tla).
#include "exact.hpp"
#include <Eigen/Eigenvalues>
#include <cstdint>
#include <fstream>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/filesystem.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/random.hpp>
using namespace Eigen; using vd::J;
using namespace sm::kinematics;

static double num(const std::string& s) { if (s[0] == 'x') { uint64_t u = std::strtoull(s.c_str() + 1, 0, 16); double d; std::memcpy(&d, &u, 8); return d; } return std::strtod(s.c_str(), 0); }
static std::string text(double d) {
  if (d == std::floor(d) && std::fabs(d) < 1e6 && !(d == 0 && std::signbit(d))) return std::to_string((long long)d);
  uint64_t u; std::memcpy(&u, &d, 8); char b[32]; std::snprintf(b, sizeof b, "x%016llx", (unsigned long long)u); return b;
}
typedef std::vector<double> N;
template <class M> void put(N& n, const M& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) n.push_back(m(i, j)); }
template <class M> M take(const N& n, int at) { M m; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = n[at++]; return m; }
static N get(const Transformation& x) { N n; put(n, x.q()); put(n, x.t()); return n; }
static N get(const UncertainTransformation& x) { N n = get((const Transformation&)x); put(n, x.U()); return n; }
static N get(const HomogeneousPoint& x) { N n; put(n, x.toHomogeneous()); return n; }
static N get(const UncertainHomogeneousPoint& x) { N n = get((const HomogeneousPoint&)x); put(n, x.U4()); return n; }
static N get(const UncertainVector<1>& x) { return N{x.mean(), x.covariance()}; }
template <int D> N get(const UncertainVector<D>& x) { N n; put(n, x.mean()); put(n, x.covariance()); return n; }
// numbers are set directly, without normalisation
static void set(Transformation& x, const N& n) { for (int i = 0; i < 4; ++i) x.qptr()[i] = n[i]; for (int i = 0; i < 3; ++i) x.tptr()[i] = n[4 + i]; }
static void set(UncertainTransformation& x, const N& n) { set((Transformation&)x, n); x.setU(take<Matrix<double, 6, 6> >(n, 7)); }
static void set(HomogeneousPoint& x, const N& n) { for (int i = 0; i < 4; ++i) x.pptr()[i] = n[i]; }
static void set(UncertainHomogeneousPoint& x, const N& n) { x = UncertainHomogeneousPoint(take<Vector4d>(n, 0), take<Matrix4d>(n, 4)); }
static void set(UncertainVector<1>& x, const N& n) { x = UncertainVector<1>(n[0], n[1]); }
template <int D> void set(UncertainVector<D>& x, const N& n) { x = UncertainVector<D>(take<Matrix<double, D, 1> >(n, 0), take<Matrix<double, D, D> >(n, D)); }
static void maxima(Transformation& x, const J& e) { x.setRandom(e["tmax"].num() / 64.0, e["rmax"].num() / 64.0); }
static void maxima(UncertainTransformation& x, const J& e) { x.setRandom(e["tmax"].num() / 64.0, e["rmax"].num() / 64.0); }
template <class X> void maxima(X&, const J&) {}
static J codes(const N& n) { J d = J::arr(); for (double x : n) d.push(text(x)); return d; }
static long long mill(double x) { return (long long)std::floor(std::max(-2000.0, std::min(2000.0, x)) * 1e6 + 0.5); }

#define TYPES(X) X(T, Transformation) X(U, UncertainTransformation) X(H, HomogeneousPoint) X(P, UncertainHomogeneousPoint) X(A, UncertainVector<1>) X(B, UncertainVector<2>) X(C, UncertainVector<3>) X(D, UncertainVector<4>)
struct Driver {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
#define DECL(L, ...) __VA_ARGS__ v_##L[2];
  TYPES(DECL)
  std::stringstream s; std::string f, dir;
  std::unique_ptr<boost::archive::text_oarchive> to; std::unique_ptr<boost::archive::text_iarchive> ti;
  std::unique_ptr<boost::archive::binary_oarchive> bo; std::unique_ptr<boost::archive::binary_iarchive> bi;
  std::unique_ptr<boost::archive::xml_oarchive> xo; std::unique_ptr<boost::archive::xml_iarchive> xi;
  Driver() { char t[] = "/tmp/kinXXXXXX"; dir = mkdtemp(t); }
  ~Driver() { boost::filesystem::remove_all(dir); }
  void close() { to.reset(); bo.reset(); xo.reset(); ti.reset(); bi.reset(); xi.reset(); }
  template <class X> static J content(const X& x) { return J::obj().set("k", "c").set("c", codes(get(x))); }
  template <class X> J with(X* v, const std::string& op, const J& e) {
    X& x = v[e["s"].str()[1] - '0'];
    if (op == "set") { N n; for (size_t i = 0; i < e["c"].size(); ++i) n.push_back(num(e["c"][i].str())); ::set(x, n); return content(x); }
    if (op == "show") return content(x);
    if (op == "fresh") { x = X(); return content(x); }
    if (op == "copy") { X c(v[e["from"].str()[1] - '0']); x = c; return content(x); }
    if (op == "equal") return J::obj().set("k", "bool").set("v", x.isBinaryEqual(v[e["from"].str()[1] - '0']));
    if (op == "random") {
      if (e.has("seed")) std::srand(e["seed"].num()), sm::random::seed(e["seed"].num());
      if (e.has("tmax")) maxima(x, e); else { x.setRandom(); if (get(x) == N()) throw 1; }
      return facts(x, content(x).set("k", "random"));
    }
    if (op == "save") { const X& c = x; if (to) *to << c; else if (bo) *bo << c; else *xo << boost::serialization::make_nvp("item", c); return vd::rOk(); }
    if (op == "load") { if (ti) *ti >> x; else if (bi) *bi >> x; else *xi >> boost::serialization::make_nvp("item", x); return content(x); }
    if (op == "fsave") {
      std::string p = dir + "/" + e["name"].str(), f = e["f"].str();
      if (f == "binary") sm::boost_serialization::save(x, p); else if (f == "text") sm::boost_serialization::save_txt(x, p); else sm::boost_serialization::save_xml(x, p);
      return vd::rOk();
    }
    if (op == "fload") {
      std::string p = dir + "/" + e["name"].str(), f = e["f"].str();
      try { if (f == "binary") sm::boost_serialization::load(x, p); else if (f == "text") sm::boost_serialization::load_txt(x, p); else sm::boost_serialization::load_xml(x, p); }
      catch (const std::runtime_error&) { return content(x).set("k", "exc"); }
      return content(x);
    }
    if (op == "newer") {
      std::stringstream o; { boost::archive::xml_oarchive a(o); const X& c = x; a << boost::serialization::make_nvp("item", c); }
      std::string t = o.str(); size_t at = t.find("<item"); at = t.find("version=\"0\"", at); if (at == std::string::npos) return vd::rExc("no version");
      t.replace(at, 11, "version=\"" + std::to_string(e["v"].num()) + "\"");
      std::stringstream i(t); boost::archive::xml_iarchive a(i);
      try { a >> boost::serialization::make_nvp("item", x); } catch (const std::exception&) { return content(x).set("k", "exc"); }
      return content(x);
    }
    return vd::rExc("bad op");
  }
  template <class M> static J spd(const M& m, J o) {
    bool sym = (m - m.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * m.cwiseAbs().maxCoeff();
    SelfAdjointEigenSolver<M> es(m); return o.set("sym", sym).set("least", mill(es.eigenvalues().minCoeff()));
  }
  static J facts(const Transformation& x, J o) { return o.set("norm", mill(x.q().norm())).set("trans", mill(x.t().norm())).set("angle", mill(2 * std::atan2(x.q().head<3>().norm(), std::fabs(x.q()[3])))); }
  static J facts(const UncertainTransformation& x, J o) { return spd(x.U(), facts((const Transformation&)x, o)); }
  static J facts(const HomogeneousPoint& x, J o) { return o.set("norm", mill(x.toHomogeneous().norm())); }
  static J facts(const UncertainHomogeneousPoint& x, J o) { return spd(x.U4(), facts((const HomogeneousPoint&)x, o)); }
  static J facts(const UncertainVector<1>& x, J o) { return o.set("sym", true).set("least", mill(x.covariance())); }
  template <int D> static J facts(const UncertainVector<D>& x, J o) { return spd(Matrix<double, D, D>(x.covariance()), o); }
  J ptree(const J& e) {
    sm::BoostPropertyTree t; std::string ns = e["ns"].str(); sm::PropertyTree p(t); std::string b = ns.empty() ? "" : ns + "/", drop = e["drop"].str();
    const char* qn[] = {"x", "y", "z", "w"};
    auto put = [&](const std::string& g, const char* n, double v) { std::string k = g + "/" + n; if (k != drop && g != drop) p.setDouble(b + k, v); };
    for (int i = 0; i < 4; ++i) put("q_a_b", qn[i], e["q"][i].num() * 0.3);
    for (int i = 0; i < 3; ++i) put("t_a_b_a", qn[i], e["t"][i].num() / 8.0);
    try {
      Transformation T = ns.empty() ? transformationFromPropertyTree(p) : transformationFromPropertyTree(sm::ConstPropertyTree(p, ns));
      return J::obj().set("k", "T").set("q", ex::vec(T.q(), e["n"].num())["d"]).set("t", ex::vec(T.t(), 8)["d"]);
    } catch (const sm::PropertyTree::InvalidKeyException&) { return vd::rExc("InvalidKeyException"); }
  }
  J step(const J& e) {
    const std::string op = e["op"].str();
    try {
      if (op == "ptree") return ptree(e);
      if (op == "create") {
        close(); s.str(""); s.clear(); f = e["f"].str();
        if (f == "text") to.reset(new boost::archive::text_oarchive(s)); else if (f == "binary") bo.reset(new boost::archive::binary_oarchive(s)); else xo.reset(new boost::archive::xml_oarchive(s));
        return vd::rOk();
      }
      if (op == "open") {
        close(); std::string t = s.str(); s.str(t); s.clear();
        if (f == "text") ti.reset(new boost::archive::text_iarchive(s)); else if (f == "binary") bi.reset(new boost::archive::binary_iarchive(s)); else xi.reset(new boost::archive::xml_iarchive(s));
        return vd::rOk();
      }
      const char c = e["s"].str()[0];
#define CASE(L, ...) if (c == #L[0]) return with(v_##L, op, e);
      TYPES(CASE)
    } catch (const std::exception& x) { return vd::rExc(std::string("exception ") + x.what()); }
    return vd::rExc("bad slot");
  }
};
int main(int argc, char** argv) { return vd::run<Driver>(argc, argv, true); }
