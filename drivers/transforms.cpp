// Executes transformations, homogeneous points and their covariances (spec/Transforms.tla, spec/KinFns.tla).
#include "exact.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/three_point_methods.hpp>
using namespace ex;
namespace sk = sm::kinematics;
typedef Matrix<double, 6, 6> M6; typedef Matrix<double, 6, 1> V6;
static const long MAXD = 10000;

template <class M> J rat(const M& m) { return J::obj().set("k", "mat").set("d", fracs(m, MAXD)); }
template <class M> J maybe(const M& m) { try { return fracs(m, MAXD); } catch (const Off&) { return J::arr(); } }
template <class V> V frac(const J& v, const J& d) { V r = ints<V>(v); return r / (double)d.num(); }
static Matrix4d matrix(const J& q, const Vector3d& t) { Matrix4d m = Matrix4d::Identity(); m.topLeftCorner<3, 3>() = matq(unitq(q)).cast<double>(); m.topRightCorner<3, 1>() = t; return m; }
static Matrix4d matrix(const J& e) { return matrix(e["q"], frac<Vector3d>(e["t"], e["d"])); }
template <class M> M cov(const J& e, const char* u = "U", const char* d = "ud") { return intm<M>(e[u]) / (double)e[d].num(); }
static VectorXd vecx(const J& v) { VectorXd r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i].num(); return r; }
static MatrixXd matx(const J& v) { MatrixXd r(v.size(), v[0].size()); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[0].size(); ++j) r(i, j) = v[i][j].num(); return r; }

struct TReg {
  bool un; sk::Transformation t; sk::UncertainTransformation u;
  TReg() : un(false) {}
  TReg(const sk::Transformation& x) : un(false), t(x) {}
  TReg(const sk::UncertainTransformation& x) : un(true), u(x) {}
  sk::Transformation& base() { return un ? u : t; }
};
struct PReg {
  bool un; sk::HomogeneousPoint p; sk::UncertainHomogeneousPoint u;
  PReg() : un(false) {}
  PReg(const sk::HomogeneousPoint& x) : un(false), p(x) {}
  PReg(const sk::UncertainHomogeneousPoint& x) : un(true), u(x) {}
  sk::HomogeneousPoint& base() { return un ? u : p; }
};
template <int K> static J uv(const sk::UncertainVector<K>& x) {
  J r = J::obj().set("k", "uv").set("v", fracs(x.v(), MAXD)).set("U", fracs(x.E(), 2 * MAXD, 1e-10L));
  return r.set("same", x.mean() == x.v() && x.covariance() == x.E());
}
static J uv(const sk::UncertainVector<1>& x) {
  Matrix<double, 1, 1> v, e; v << x.v(); e << x.E();
  return J::obj().set("k", "uv").set("v", fracs(v, MAXD)).set("U", fracs(e, 2 * MAXD, 1e-10L)).set("same", x.mean() == x.v() && x.covariance() == x.E());
}
template <int K> static J uvop(const J& e) {
  typedef Matrix<double, K, 1> V; typedef Matrix<double, K, K> M; typedef sk::UncertainVector<K> U; typedef sk::UncertainVector<1> S;
  const std::string f = e["f"].str(); int form = e["form"].num();
  U a(ints<V>(e["v"]), intm<M>(e["E"]));
  if (form % 2) { U b; b.setMean(ints<V>(e["v"])); b.setCovariance(intm<M>(e["E"])); a = b; }
  if (f == "self") return uv<K>(a);
  if (f == "default") return uv<K>(U());
  if (f == "certain") return uv<K>(U(ints<V>(e["v"])));
  if (f == "zero") { a.setZero(); return uv<K>(a); }
  if (f == "norm") { if (form / 2) { a.normalize(); return uv<K>(a); } return uv<K>(a.normalized()); }
  if (f == "mat") return uv<K>(::operator*(intm<M>(e["F"]), a));
  V w = ints<V>(e["w"]); U b(w, intm<M>(e["F"]));
  if (f == "add") return uv<K>(a + b);
  if (f == "sub") return uv<K>(a - b);
  if (f == "addc") return uv<K>(a + w);
  if (f == "subc") return uv<K>(a - w);
  if (f == "dot") return uv(a.dot(b));
  if (f == "dotc") return uv(a.dot(w));
  S s(e["s"].num(), e["sE"].num());
  if (f == "mulS") return uv<K>(form / 2 ? s * a : a * s);
  if (f == "muld") return uv<K>(a * (double)e["s"].num());
  if (f == "Svec") return uv<K>(s * w);
  throw std::logic_error("uv " + f);
}
static J scalar(const J& e) {
  typedef sk::UncertainVector<1> S; const std::string f = e["f"].str(); int form = e["form"].num();
  double v = e["v"].num(), w = e["w"].num(); S a(v, e["E"].num()), b(w, e["F"].num());
  if (form % 2) { S c(7, 8); c.setMean(v); c.setCovariance(e["E"].num()); a = c; }
  if (f == "self") return uv(a);
  if (f == "default") return uv(S());
  if (f == "certain") return uv(S(v));
  if (f == "zero") { a.setZero(); return uv(a); }
  if (f == "add") return uv(a + b);
  if (f == "sub") return uv(a - b);
  if (f == "addc") return uv(a + w);
  if (f == "subc") return uv(a - w);
  if (f == "mul") return uv(form / 2 ? a.dot(b) : a * b);
  if (f == "mulc") return uv(form / 2 ? a.dot(w) : a * w);
  if (f == "div") return uv(a / b);
  if (f == "divc") return uv(a / w);
  throw std::logic_error("scalar " + f);
}

struct D {
  TReg T[4]; PReg P[4];
  static J show(TReg& x) {
    J r = J::obj().set("k", "T").set("un", x.un).set("T", fracs(x.base().T(), MAXD));
    return r.set("U", x.un ? fracs(x.u.U(), MAXD) : J::arr());
  }
  static J show(PReg& x) {
    const sk::HomogeneousPoint& p = x.base(); Vector4d h = p.toHomogeneous(); bool inf = p.atInfinity();
    if (inf != p.isVector() || inf != (h[3] == 0)) return J::obj().set("k", "inconsistent");
    J r = J::obj().set("k", "P").set("un", x.un).set("inf", inf).set("h", maybe(h));
    Vector3d v = h.head<3>(), ray = v / v.cwiseAbs().maxCoeff();
    r.set("e3", inf ? J::arr() : maybe(p.toEuclidean())).set("ray", inf ? maybe(ray) : J::arr());
    r.set("U4", x.un ? maybe(x.u.U4()) : J::arr()).set("U3", x.un && !inf ? maybe(x.u.U3()) : J::arr());
    return r;
  }
  static Vector3d turn(const J& e) { return axisangle(e["q"], e["turns"].num()).cast<double>(); }

  J step(const J& e) {
    try { return run(e); }
    catch (const Off& x) { return J::obj().set("k", "off").set("what", x.what()); }
    catch (const std::exception& x) { return J::obj().set("k", "exc").set("what", std::string(x.what()).substr(0, 200)); }
  }
  J run(const J& e) {
    const std::string op = e["op"].str(), f = e.has("f") ? e["f"].str() : "";
    int form = e.has("form") ? e["form"].num() : 0;
    if (e.has("call")) return call(e, op, f, form);
    int i = e.has("i") ? e["i"].num() : 0, j = e.has("j") ? e["j"].num() : 0, n = e.has("n") ? e["n"].num() : 0;
    if (op[0] == 't') {
      TReg &x = T[i], &y = T[j], &z = T[n];
      if (op == "tget") return get(x, e, f);
      if (op == "tset") {
        Vector4d q = ints<Vector4d>(e["q"]); int qs = e.has("qs") ? e["qs"].num() : 0; if (qs) q *= qs == 1 ? 1 / q.norm() : qs == 2 ? 0.03125 / q.norm() : 3.0;
        Vector3d t = frac<Vector3d>(e["t"], e["d"]); Matrix4d m = matrix(e);
        typedef sk::UncertainTransformation UT; typedef sk::Transformation TT;
        double d = e.has("ud") ? e["ud"].num() : 1, a = e.has("a") ? e["a"].num() / d : 0, b = e.has("b") ? e["b"].num() / d : 0;
        M6 U = e.has("U") ? cov<M6>(e) : M6::Zero();
        if (f == "qt") z = TReg(TT(q, t)); else if (f == "mat") z = TReg(TT(m)); else if (f == "setmat") z.base().set(m); else if (f == "identity") z.base().setIdentity();
        else if (f == "default") z = TReg(TT()); else if (f == "udefault") z = TReg(UT()); else if (f == "uqt") z = TReg(UT(q, t)); else if (f == "umat") z = TReg(UT(m)); else if (f == "uT") z = TReg(UT(TT(q, t)));
        else if (f == "uqtU") z = TReg(UT(q, t, U)); else if (f == "umatU") z = TReg(UT(m, U)); else if (f == "uTU") z = TReg(UT(TT(m), U));
        else if (f == "uqtd") z = TReg(UT(q, t, a, b)); else if (f == "umatd") z = TReg(UT(m, a, b)); else if (f == "uTd") z = TReg(UT(TT(q, t), a, b));
        else throw std::logic_error(f);
      }
      else if (op == "tmul") {
        if (form == 1) { const sk::Transformation& l = x.base(); z = y.un ? TReg(l * y.u) : TReg(l * y.t); }
        else z = x.un ? (y.un ? TReg(x.u * y.u) : TReg(x.u * y.t)) : (y.un ? TReg(x.t * y.u) : TReg(x.t * y.t));
      }
      else if (op == "tinv") z = form == 1 || !x.un ? TReg(x.base().inverse()) : TReg(x.u.inverse());
      else if (op == "toplus") { V6 dt; dt << frac<Vector3d>(e["t"], e["d"]), turn(e); z.base().oplus(dt); }
      else if (op == "tplain") z = x.un ? TReg(x.u.toTransformation()) : TReg(sk::Transformation(x.t));
      else if (op == "tlift") z = form == 2 && x.un ? TReg(sk::UncertainTransformation(x.u)) : form == 1 ? TReg(sk::UncertainTransformation(x.base().q(), x.base().t())) : TReg(sk::UncertainTransformation(x.base()));
      else if (op == "tsetU") z.u.setU(cov<M6>(e));
      else if (op == "tsetUO") z.u.setUOplus(cov<M6>(e));
      else throw std::logic_error(op);
      return show(z);
    }
    PReg &x = P[i], &y = P[j], &z = P[n];
    typedef sk::UncertainHomogeneousPoint UP; typedef sk::HomogeneousPoint HP;
    if (op == "pget") return show(x);
    if (op == "pav") return x.un ? rat(x.u.U_av_form()) : J::obj().set("k", "none");
    if (op == "pset") {
      Vector4d h = frac<Vector4d>(e["h"], e["d"]); Vector3d v = h.head<3>(); HP& b = z.base();
      if (f == "p3") z = PReg(HP(v)); else if (f == "p4") z = PReg(HP(h)); else if (f == "=3") b = v; else if (f == "=4") b = h; else if (f == "set3") b.set(v); else if (f == "set4") b.set(h);
      else if (f == "setX") { VectorXd w = h; if (h[3] == 1) w = v; b.set(w); }
      else if (f == "zero") b.setZero(); else if (f == "default") z = PReg(HP()); else if (f == "udefault") z = PReg(UP()); else if (f == "u3") z = PReg(UP(v)); else if (f == "u4") z = PReg(UP(h)); else if (f == "uP") z = PReg(UP(HP(h)));
      else if (f == "u3U") z = PReg(UP(v, cov<Matrix3d>(e))); else if (f == "u4U") z = PReg(UP(h, cov<Matrix4d>(e))); else if (f == "uPU") z = PReg(UP(HP(h), cov<Matrix4d>(e)));
      else if (f == "u4av") z = PReg(UP(h, cov<Matrix3d>(e))); else if (f == "uPav") z = PReg(UP(HP(h), cov<Matrix3d>(e)));
      else throw std::logic_error(f);
    }
    else if (op == "papply") {
      TReg& t = T[i];
      if (form == 1) { const sk::Transformation& l = t.base(); z = y.un ? PReg(l * y.u) : PReg(l * y.p); }
      else z = t.un ? (y.un ? PReg(t.u * y.u) : PReg(t.u * y.p)) : (y.un ? PReg(t.t * y.u) : PReg(t.t * y.p));
    }
    else if (op == "psum") {
      bool plus = e["g"].num() > 0;
      if (form == 1) { const HP& l = x.base(); z = y.un ? PReg(plus ? l + y.u : l - y.u) : PReg(plus ? l + y.p : l - y.p); }
      else if (x.un) z = y.un ? PReg(plus ? x.u + y.u : x.u - y.u) : PReg(plus ? x.u + y.p : x.u - y.p);
      else z = y.un ? PReg(plus ? x.p + y.u : x.p - y.u) : PReg(plus ? x.p + y.p : x.p - y.p);
    }
    else if (op == "pnorm") { if (form == 1) z.base().normalize(); else if (z.un) z.u.normalize(); else z.p.normalize(); }
    else if (op == "pscale") z.base().scale(e["c"].num());
    else if (op == "pvector") z.base().convertToVector();
    else if (op == "ppoint") z.base().convertToPoint();
    else if (op == "poplus") z.base().oplus(turn(e));
    else if (op == "plift") z = form == 2 && x.un ? PReg(UP(x.u)) : form == 1 ? PReg(UP(x.base().toHomogeneous())) : PReg(UP(x.base()));
    else if (op == "pplain") z = PReg(HP(x.base()));
    else if (op == "psetU") z.u.setU(cov<Matrix4d>(e));
    else if (op == "psetUO") z.u.setUOplus(cov<Matrix3d>(e));
    else throw std::logic_error(op);
    return show(z);
  }
  J get(TReg& x, const J& e, const std::string& f) {
    const sk::Transformation& t = x.base();
    if (f == "T") return rat(t.T());
    if (f == "C") return rat(t.C());
    if (f == "q") { if (std::fabs(t.q().norm() - 1) > 1e-12 || x.base().qptr() != &t.q()[0]) return J::obj().set("k", "length"); return rat(matq(t.q().cast<L>())); }
    if (f == "t") { if (x.base().tptr() != &t.t()[0]) return J::obj().set("k", "tptr"); return rat(t.t()); }
    if (f == "T3x4") return rat(t.T3x4());
    if (f == "S") return rat(t.S());
    if (f == "v3") { Vector3d v = ints<Vector3d>(e["v"]); return rat(x.un ? x.u * v : t * v); }
    if (f == "v4") { Vector4d v = ints<Vector4d>(e["v"]); return rat(x.un ? x.u * v : t * v); }
    if (f == "r3") return rat(t.rotate(ints<Vector3d>(e["v"])));
    if (f == "r4") return rat(t.rotate(ints<Vector4d>(e["v"])));
    if (f == "ruv") return uv<3>(t.rotate(sk::UncertainVector3(ints<Vector3d>(e["v"]), cov<Matrix3d>(e))));
    if (f == "U") return x.un ? rat(x.u.U()) : J::obj().set("k", "none");
    if (f == "UOplus") return x.un ? rat(x.u.UOplus()) : J::obj().set("k", "none");
    throw std::logic_error(f);
  }
  // calls without registers
  J call(const J& e, const std::string& op, const std::string& f, int form) {
    if (op == "slerp") {
      Vector4d q0 = unitq(e["q0"]).cast<double>(), q1; V4 a = unitq(e["q0"]), r = unitq(e["rr"]);
      for (int i = 0; i < e["m"].num(); ++i) { V4 p; p << a[3]*r[0] + a[2]*r[1] - a[1]*r[2] + a[0]*r[3], -a[2]*r[0] + a[3]*r[1] + a[0]*r[2] + a[1]*r[3], a[1]*r[0] - a[0]*r[1] + a[3]*r[2] + a[2]*r[3], -a[0]*r[0] - a[1]*r[1] - a[2]*r[2] + a[3]*r[3]; a = p; }
      q1 = a.cast<double>(); if (e["neg"].boolean()) q1 = -q1;
      double t = e["c"].num() / (double)e["m"].num();
      if (f == "qslerp") { Matrix4d m = Matrix4d::Identity(); Vector4d q = sk::qslerp(q0, q1, t); m.topLeftCorner<3, 3>() = matq(q.cast<L>()).cast<double>(); return rat(m); }
      sk::Transformation T0(q0, ints<Vector3d>(e["t0"])), T1(q1, ints<Vector3d>(e["t1"]));
      if (f == "slerp") return rat(sk::slerpTransformations(T0, T1, t).T());
      double u = std::ldexp(1.0, e.has("u") ? (int)e["u"].num() : 0);
      return rat(sk::interpolateTransformations(T0, e["s0"].num() * u, T1, e["s1"].num() * u, e["si"].num() * u).T());
    }
    if (op == "lerp") { VectorXd r = sk::lerp(vecx(e["v"]), vecx(e["w"]), e["c"].num() / (double)e["m"].num()); return rat(r); }
    if (op == "rt2") return rat(sk::rt2Transform(intm<Matrix3d>(e["m"]), ints<Vector3d>(e["v"])));
    if (op == "t2C") return rat(sk::transform2C(intm<Matrix4d>(e["m"])));
    if (op == "t2rho") return rat(sk::transform2rho(intm<Matrix4d>(e["m"])));
    if (op == "t2rhoH") return rat(sk::transform2rhoHomogeneous(intm<Matrix4d>(e["m"])));
    if (op == "inverse") return rat(sk::inverseTransform(matrix(e)));
    if (op == "toTEuler") {
      V6 p; p << ints<Vector3d>(e["t"]), (double)angle(e["a"][0]), (double)angle(e["a"][1]), (double)angle(e["a"][2]);
      return rat(form ? sk::toTEuler(p) : sk::toTEuler(p[0], p[1], p[2], p[3], p[4], p[5]));
    }
    if (op == "fromTEuler") {
      V6 p = sk::fromTEuler(matrix(e)); Matrix4d m = Matrix4d::Identity(); Matrix<L, 3, 1> a = p.tail<3>().cast<L>();
      m.topLeftCorner<3, 3>() = euler("rphC", a).cast<double>(); m.topRightCorner<3, 1>() = p.head<3>(); return rat(m);
    }
    if (op == "boxPlus") return rat(sk::boxPlus(ints<V6>(e["v"])));
    if (op == "boxMinus") return rat(sk::boxMinus(ints<Vector4d>(e["v"])));
    if (op == "boxTimes") return rat(sk::boxTimes(matrix(e)));
    if (op == "HPlus") return rat(sk::toHomogeneousPlus(ints<Vector4d>(e["v"])));
    if (op == "HMinus") return rat(sk::toHomogeneousMinus(ints<Vector4d>(e["v"])));
    if (op == "toH") {
      Vector3d v = ints<Vector3d>(e["v"]); Matrix<double, 4, 3> jac;
      if (f == "jac") { sk::toHomogeneous(v, &jac); return rat(jac); }
      if (f == "jacobian") return rat(sk::toHomogeneousJacobian(v));
      return rat(f == "both" ? sk::toHomogeneous(v, &jac) : sk::toHomogeneous(v));
    }
    if (op == "fromH") {
      Vector4d v = ints<Vector4d>(e["v"]); Matrix<double, 3, 4> jac;
      if (f == "jac") { sk::fromHomogeneous(v, &jac); return rat(jac); }
      if (f == "jacobian") return rat(sk::fromHomogeneousJacobian(v));
      return rat(f == "both" ? sk::fromHomogeneous(v, &jac) : sk::fromHomogeneous(v));
    }
    if (op == "toHC") return rat(sk::toHomogeneousColumns(matx(e["m"])));
    if (op == "fromHC") return rat(sk::fromHomogeneousColumns(matx(e["m"])));
    if (op == "normalize") {
      const J& v = e["v"];
      if (v.size() == 2) { Vector2d x = ints<Vector2d>(v), y; Matrix2d j; y = sk::normalizeAndJacobian<2>(x, j); return f == "jac" ? rat(j) : rat(f == "both" ? y : sk::normalize<2>(x)); }
      if (v.size() == 3) { Vector3d x = ints<Vector3d>(v), y; Matrix3d j; y = sk::normalizeAndJacobian<3>(x, j); return f == "jac" ? rat(j) : rat(f == "both" ? y : sk::normalize<3>(x)); }
      Vector4d x = ints<Vector4d>(v), y; Matrix4d j; y = sk::normalizeAndJacobian<4>(x, j); return f == "jac" ? rat(j) : rat(f == "both" ? y : sk::normalize<4>(x));
    }
    if (op == "tJac" || op == "itJac") {
      Vector4d v = ints<Vector4d>(e["v"]), o; Matrix<double, 4, 6> B; Matrix4d m = matrix(e);
      if (op == "tJac") sk::transformationAndJacobian(m, v, o, B); else sk::inverseTransformationAndJacobian(m, v, o, B);
      return f == "jac" ? rat(B) : rat(o);
    }
    if (op == "hJac" || op == "eJac") {
      sk::HomogeneousPoint p(ints<Vector4d>(e["v"])); 
      if (op == "hJac") { sk::HomogeneousPoint::homogeneous_jacobian_t j; Vector4d o = p.toHomogeneousAndJacobian(j); return f == "jac" ? rat(j) : rat(o); }
      sk::HomogeneousPoint::euclidean_jacobian_t j; Vector3d o = p.toEuclideanAndJacobian(j); return f == "jac" ? rat(j) : rat(o);
    }
    if (op == "svd" || op == "qmethod") {
      const J& ps = e["p"]; int n = ps.size(); MatrixXd a(3, n), b(3, n); Matrix3d R = matq(unitq(e["q"])).cast<double>(); VectorXd w(n);
      for (int i = 0; i < n; ++i) {
        Vector3d p = ints<Vector3d>(ps[i]); if (op == "qmethod") { p.normalize(); w[i] = e["w"][i].num(); }
        b.col(i) = p; a.col(i) = R * p; if (op == "svd") a.col(i) += frac<Vector3d>(e["t"], e["d"]);
      }
      if (op == "svd") return rat(sk::threePointSvd(a, b));
      return rat(form ? sk::qMethod(a, b) : sk::qMethod(a, b, w));
    }
    if (op == "fit") {
      int k = e["k"].num() - 1, i = (k + 1) % 3, j = (k + 2) % 3; bool svd = f == "svd"; L h = std::sqrt((L)e["h2"].num());
      auto an = [&](const char* x) { return 2 * std::atan2((L)e[x]["s"].num(), (L)e[x]["c"].num()); };
      Matrix3d A = ex::turn(k, an("base") + an("a")).cast<double>(), B = ex::turn(k, an("base") + an("b")).cast<double>();
      Vector3d x = Vector3d::Unit(i), y = Vector3d::Unit(j), z = Vector3d::Unit(k); double la = e["la"].num(), lb = e["lb"].num(), lk = e["lk"].num();
      M3 m; MatrixXd a(3, svd ? 6 : 3), b(3, svd ? 6 : 3);
      if (svd) {
        Vector3d t = ints<Vector3d>(e["t"]), o = ints<Vector3d>(e["o"]);
        b << la * x, -la * x, lb * y, -lb * y, lk * z, -lk * z; a << la * A * x, -la * A * x, lb * B * y, -lb * B * y, lk * z, -lk * z;
        a.colwise() += t; b.colwise() += o;
        Matrix4d T = sk::threePointSvd(a, b); if (T.row(3) != Matrix4d::Identity().row(3)) return J::obj().set("k", "row");
        m = T.topLeftCorner<3, 3>().cast<L>(); V3 v = (t - T.topRightCorner<3, 1>()).cast<L>();
        m(i, i) *= h; m(i, j) *= h; m(j, i) *= h; m(j, j) *= h; v[i] *= h; v[j] *= h;
        Matrix<L, 4, 3> r; r << m, v.transpose(); return mat(r, 1, 1e-10L, 1e-10L);
      }
      b << x, y, z; a << A * x, B * y, z; Vector3d w(la, lb, lk); m = (la == lb && lb == lk ? sk::qMethod(a, b) : sk::qMethod(a, b, w)).cast<L>();
      m(i, i) *= h; m(i, j) *= h; m(j, i) *= h; m(j, j) *= h; return mat(m, 1, 1e-10L, 1e-10L);
    }
    if (op == "scalar") return scalar(e);
    if (op == "uv") return e["v"].size() == 2 ? uvop<2>(e) : e["v"].size() == 3 ? uvop<3>(e) : uvop<4>(e);
    throw std::logic_error("op " + op);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
