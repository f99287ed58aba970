// Executes serialisation of Eigen matrices (spec/Matrices.tla).
#include "vdrv.hpp"
#include <complex>
#include <cstdint>
#include <fstream>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <boost/serialization/complex.hpp>
#include <boost/serialization/vector.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/eigen/serialization.hpp>
using vd::J;
using namespace Eigen;

// a number as text: decimal if it is a small integer, otherwise its bits
template <class T> struct Code {
  static T from(const std::string& s) {
    if (s[0] == 'x') { uint64_t u = std::strtoull(s.c_str() + 1, 0, 16); T t; std::memcpy(&t, &u, sizeof(T)); return t; }
    return (T)std::strtod(s.c_str(), 0);
  }
  static std::string to(const T& t) {
    double d = (double)t;
    if (d == std::floor(d) && std::fabs(d) < 1e6 && !(d == 0 && std::signbit(d))) return std::to_string((long long)d);
    uint64_t u = 0; std::memcpy(&u, &t, sizeof(T)); char b[32]; std::snprintf(b, sizeof b, "x%0*llx", (int)(2 * sizeof(T)), (unsigned long long)u); return b;
  }
};
template <> struct Code<std::complex<double> > {
  typedef std::complex<double> T;
  static T from(const std::string& s) { size_t k = s.find('i'); return T(Code<double>::from(s.substr(0, k)), Code<double>::from(s.substr(k + 1))); }
  static std::string to(const T& t) { return Code<double>::to(t.real()) + "i" + Code<double>::to(t.imag()); }
};
template <class M> static void fill(M& m, const J& v) {
  m.resize(v["r"].num(), v["c"].num());
  for (int i = 0, n = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j, ++n) m(i, j) = Code<typename M::Scalar>::from(v["d"][n].str());
}
template <class M> static J value(const M& m, J o) {
  J d = J::arr();
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) d.push(Code<typename M::Scalar>::to(m(i, j)));
  return o.set("r", (int)m.rows()).set("c", (int)m.cols()).set("d", d);
}
template <class M> struct Var { M v; Var() { if (M::SizeAtCompileTime != Dynamic) v.setZero(); else v.resize(M::RowsAtCompileTime == Dynamic ? 0 : M::RowsAtCompileTime, M::ColsAtCompileTime == Dynamic ? 0 : M::ColsAtCompileTime); }
  M& mat() { return v; } M& ser() { return v; } };
template <class T> struct TVar { T v; TVar() { v.matrix().setZero(); } typename T::MatrixType& mat() { return v.matrix(); } T& ser() { return v; } };

#define TYPES(X) \
  X(d23, Var<Matrix<double EIGEN_C 2 EIGEN_C 3> >) X(d31, Var<Vector3d>) X(d14, Var<RowVector4d>) X(d22, Var<Matrix2d>) X(dX3, Var<Matrix<double EIGEN_C Dynamic EIGEN_C 3> >) X(dX1, Var<VectorXd>) \
  X(d2X, Var<Matrix<double EIGEN_C 2 EIGEN_C Dynamic> >) X(d1X, Var<RowVectorXd>) X(dXX, Var<MatrixXd>) X(dMM, Var<Matrix<double EIGEN_C Dynamic EIGEN_C Dynamic EIGEN_C 0 EIGEN_C 4 EIGEN_C 4> >) \
  X(rXX, Var<Matrix<double EIGEN_C Dynamic EIGEN_C Dynamic EIGEN_C RowMajor> >) X(r23, Var<Matrix<double EIGEN_C 2 EIGEN_C 3 EIGEN_C RowMajor> >) \
  X(r2X, Var<Matrix<double EIGEN_C 2 EIGEN_C Dynamic EIGEN_C RowMajor> >) X(rX3, Var<Matrix<double EIGEN_C Dynamic EIGEN_C 3 EIGEN_C RowMajor> >) \
  X(fXX, Var<MatrixXf>) X(f22, Var<Matrix2f>) X(fX1, Var<VectorXf>) X(f1X, Var<RowVectorXf>) X(iXX, Var<MatrixXi>) X(i1X, Var<RowVectorXi>) X(iX2, Var<Matrix<int EIGEN_C Dynamic EIGEN_C 2> >) X(cXX, Var<MatrixXcd>) X(c2X, Var<Matrix<std::complex<double> EIGEN_C 2 EIGEN_C Dynamic> >) \
  X(T44, TVar<Transform<double EIGEN_C 3 EIGEN_C Isometry> >) X(T34, TVar<Transform<double EIGEN_C 3 EIGEN_C AffineCompact> >) X(T33, TVar<Transform<float EIGEN_C 2 EIGEN_C Affine> >)
#define EIGEN_C ,

struct D {
#define DECL(N, ...) __VA_ARGS__ v_##N;
  TYPES(DECL)
  std::stringstream s;
  std::string f;
  std::unique_ptr<boost::archive::text_oarchive> to; std::unique_ptr<boost::archive::text_iarchive> ti;
  std::unique_ptr<boost::archive::binary_oarchive> bo; std::unique_ptr<boost::archive::binary_iarchive> bi;
  std::unique_ptr<boost::archive::xml_oarchive> xo; std::unique_ptr<boost::archive::xml_iarchive> xi;
  std::string dir;
  D() { char t[] = "/tmp/matXXXXXX"; dir = mkdtemp(t); }
  ~D() { boost::filesystem::remove_all(dir); }
  void close() { to.reset(); bo.reset(); xo.reset(); ti.reset(); bi.reset(); xi.reset(); }
  template <class V> J with(V& v, const std::string& op, const J& e) {
    if (op == "set") { fill(v.mat(), e["v"]); return vd::rOk(); }
    if (op == "show") return value(v.mat(), J::obj().set("k", "mat"));
    if (op == "save") {
      const auto& c = v.ser();
      if (to) *to << c; else if (bo) *bo << c; else *xo << boost::serialization::make_nvp("item", c);
      return vd::rOk();
    }
    if (op == "fsave") {
      std::string p = dir + "/" + e["name"].str(), f = e["f"].str(), tag = e["tag"].str();
      if (f == "binary") sm::boost_serialization::save(v.ser(), p); else if (f == "text") sm::boost_serialization::save_txt(v.ser(), p);
      else if (tag == "-") sm::boost_serialization::save_xml(v.ser(), p); else sm::boost_serialization::save_xml(v.ser(), tag, p);
      return vd::rOk();
    }
    std::string what;
    try {
      if (op == "fload") {
        std::string p = dir + "/" + e["name"].str(), f = e["f"].str(), tag = e["tag"].str();
        if (f == "binary") sm::boost_serialization::load(v.ser(), p); else if (f == "text") sm::boost_serialization::load_txt(v.ser(), p);
        else if (tag == "-") sm::boost_serialization::load_xml(v.ser(), p); else sm::boost_serialization::load_xml(v.ser(), tag, p);
      }
      else if (ti) *ti >> v.ser(); else if (bi) *bi >> v.ser(); else *xi >> boost::serialization::make_nvp("item", v.ser());
    }
    catch (const sm::eigen::SerializationException&) { what = "SerializationException"; }
    catch (const boost::archive::archive_exception& x) { what = std::string("archive_exception ") + x.what(); }
    catch (const std::runtime_error&) { what = "runtime_error"; }
    return value(v.mat(), J::obj().set("k", what.empty() ? "mat" : "exc").set("t", what));
  }
  J step(const J& e) {
    const std::string op = e["op"].str();
    if (op == "create") {
      close(); s.str(""); s.clear(); f = e["f"].str();
      if (f == "text") to.reset(new boost::archive::text_oarchive(s)); else if (f == "binary") bo.reset(new boost::archive::binary_oarchive(s)); else xo.reset(new boost::archive::xml_oarchive(s));
      return vd::rOk();
    }
    if (op == "open") {
      close();
      std::string t = s.str(); s.str(t); s.clear();
      if (f == "text") ti.reset(new boost::archive::text_iarchive(s)); else if (f == "binary") bi.reset(new boost::archive::binary_iarchive(s)); else xi.reset(new boost::archive::xml_iarchive(s));
      return vd::rOk();
    }
    const std::string ty = e["ty"].str();
#define CASE(N, ...) if (ty == #N) return with(v_##N, op, e);
    TYPES(CASE)
    return vd::rExc("bad type");
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv, true); }
