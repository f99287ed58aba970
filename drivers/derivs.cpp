// Executes the derivatives of the rotation parameterisations (spec/KinDerivs.tla).
#include "exact.hpp"
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
using namespace ex;
namespace sk = sm::kinematics;
typedef Matrix<L, Dynamic, Dynamic> MX; typedef Matrix<double, 3, 6> M36;

static J rows(const MX& m, L rel, L abs) { return mat(m, 1, rel, abs)["d"]; }
static J two(const MX& a, const MX& b, L rel = 1e-10L, L abs = 1e-10L) { return J::obj().set("k", "two").set("a", rows(a, rel, abs)).set("b", rows(b, rel, abs)); }
static M3 cross(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
static V4 prod(const V4& a, const V4& b) {
  V4 p; p << a[3]*b[0] + a[2]*b[1] - a[1]*b[2] + a[0]*b[3], -a[2]*b[0] + a[3]*b[1] + a[0]*b[2] + a[1]*b[3], a[1]*b[0] - a[0]*b[1] + a[3]*b[2] + a[2]*b[3], -a[0]*b[0] - a[1]*b[1] - a[2]*b[2] + a[3]*b[3];
  return p;
}
struct D {
  sk::EulerAnglesZYX zyx; sk::EulerAnglesYawPitchRoll ypr; sk::EulerAnglesZXY zxy; sk::EulerRodriguez rod; sk::RotationVector rv;
  J step(const J& e) {
    try { return run(e); }
    catch (const Off& x) { return J::obj().set("k", "off").set("what", x.what()); }
    catch (const std::exception& x) { return J::obj().set("k", "exc").set("what", std::string(x.what()).substr(0, 200)); }
  }
  const sk::RotationalKinematics& type(const std::string& f) {
    if (f == "zyx") return zyx; if (f == "ypr") return ypr; if (f == "zxy") return zxy; if (f == "rod") return rod; if (f == "rv") return rv;
    throw std::logic_error(f);
  }
  // the matrix S of a rotation vector, or its inverse
  MX S(const std::string& f, const V3& pl) {
    Vector3d p = pl.cast<double>(); Matrix3d s = Matrix3d::Constant(7); M36 j = M36::Constant(7); Vector3d d(1, 2, 3);
    if (f == "rv") s = rv.parametersToSMatrix(p);
    else if (f == "rvC") rv.parametersToRotationMatrix(p, &s);
    else if (f == "rvJ") { Vector3d w = rv.angularVelocityAndJacobian(p, d, &j); s = j.rightCols<3>(); if ((s * d - w).norm() > 1e-12) throw Off("omega"); }
    else if (f == "rvInv") s = rv.parametersToInverseSMatrix(p);
    else if (f == "exp") s = sk::expDiffMat<double>(p);
    else if (f == "log") s = sk::logDiffMat<double>(p);
    else if (f == "expf") s = sk::expDiffMat<float>(p.cast<float>()).cast<double>();
    else if (f == "logf") s = sk::logDiffMat<float>(p.cast<float>()).cast<double>();
    else throw std::logic_error(f);
    return s.cast<L>();
  }
  M3 jac(const V3& p, const Vector3d& d) { M36 j = M36::Constant(7); rv.angularVelocityAndJacobian(p.cast<double>(), d, &j); return j.leftCols<3>().cast<L>(); }
  J run(const J& e) {
    const std::string op = e["op"].str(), f = e["f"].str(), g = e.has("g") ? e["g"].str() : ""; int form = e.has("form") ? e["form"].num() : 0;
    if (op == "euler") {
      Vector3d p, w = e.has("w") ? ints<Vector3d>(e["w"]) : Vector3d(1, 2, 3); L n = 1;
      if (f == "rod") { p = ints<Vector3d>(e["q"]) / (double)e["q"][3].num(); n = norm2(e["q"]); }
      else for (int i = 0; i < 3; ++i) { const J& a = e["a"][i]; p[i] = angle(a); n *= (L)a["s"].num() * a["s"].num() + (L)a["c"].num() * a["c"].num(); }
      const sk::RotationalKinematics& t = type(f); Matrix3d s = Matrix3d::Constant(7); M36 j = M36::Constant(7); Vector3d o;
      if (g == "S") { if (form == 0) s = t.parametersToSMatrix(p); else if (form == 1) t.parametersToRotationMatrix(p, &s); else { t.angularVelocityAndJacobian(p, w, &j); s = j.rightCols<3>(); } return mat(s, n, 1e-11L, 1e-12L); }
      o = t.angularVelocityAndJacobian(p, w, g == "J" || form ? &j : NULL);
      if (g == "omega") return mat(o, n, 1e-11L, 3e-12L);
      Matrix3d m = j.leftCols<3>(); return mat(m, f == "rod" ? n * n : 2 * n, 1e-11L, 3e-12L);
    }
    if (op == "zero") {
      V3 z = V3::Zero();
      if (f == "qexp") return mat(sk::quatExpJacobian<double>(z.cast<double>()), 2);
      if (f == "qexpf") return mat(sk::quatExpJacobian<float>(z.cast<float>()), 2, 1e-6L, 1e-6L);
      if (f == "qlog") return mat(sk::quatLogJacobian2<double>(Vector4d(0, 0, 0, 1)), 1);
      if (f == "qlogf") return mat(sk::quatLogJacobian2<float>(Vector4f(0, 0, 0, 1)), 1, 1e-6L, 1e-6L);
      if (f == "J") return mat(jac(z, ints<Vector3d>(e["d"])), 2);
      return mat(S(f, z), 1, 1e-6L, 1e-6L);
    }
    if (op == "small") {
      bool inv = f == "rvInv" || f == "log" || f == "logf", flt = f == "expf" || f == "logf"; L eps = std::ldexp(1.0L, -e["k"].num()); V3 v = ints<V3>(e["v"]) * eps; MX I = M3::Identity();
      MX a = f == "J" ? MX(jac(v, ints<Vector3d>(e["d"]))) : S(f, v), b = f == "J" ? MX(jac(-v, ints<Vector3d>(e["d"]))) : S(f, -v), od = (a - b) / 2, ev = (a + b) / 2;
      if (f == "J") return J::obj().set("k", "two").set("a", rows(2 * ev, 1e-3L, 1e-3L)).set("b", rows(od * 6 / eps, 1e-3L, 2e-2L));
      return J::obj().set("k", "two").set("a", rows(od * 2 / eps, 1e-3L, 1e-3L)).set("b", rows((ev - I) * (inv ? 12 : 6) / eps / eps, 1e-3L, flt ? 0.2L : 2e-2L));
    }
    V3 v = ints<V3>(e["q"]); L w = e["q"][3].num(), n = std::sqrt(v.dot(v)), N = norm2(e["q"]); int t = e.has("t") ? e["t"].num() : 0;
    L th = 2 * std::atan2(n, w) + 2 * PI * t; V3 p = v * (th / n); M3 X = cross(v), Y = 2 * w * X - 2 * X * X;
    if (op == "S") { MX s = S(f, p); bool flt = f == "expf"; L tol = flt ? 2e-5L : 1e-10L, at = (flt ? 2e-6L : 1e-13L) * N * (1 + n) + tol; return two(s * v, N * th / n * s * X, tol, at); }
    if (op == "Inv") { MX s = S(f, p); bool flt = f == "logf"; L tol = flt ? 1e-4L : 1e-10L, at = (flt ? 2e-6L : 1e-13L) * N * (1 + n) + tol; return two(s * v, n / th * s * Y, tol, at * (1 + std::fabs(th))); }
    if (op == "exp") {
      bool flt = f == "qexpf"; MX j; if (flt) j = sk::quatExpJacobian<float>(p.cast<float>()).cast<L>(); else j = sk::quatExpJacobian<double>(p.cast<double>()).cast<L>();
      return two(2 * std::sqrt(N) * j * v, 2 * std::sqrt(N) * N * th / n * j * X, flt ? 2e-5L : 1e-10L, (flt ? 2e-6L : 1e-13L) * N * std::sqrt(N) * (1 + n) + (flt ? 2e-5L : 1e-10L));
    }
    if (op == "log") {
      V4 q; q << v, w; Vector4d u = unitq(e["q"]).cast<double>(); MX j; bool flt = f == "log2f";
      if (f == "log1") j = sk::quatLogJacobian(u).cast<L>(); else if (f == "log2") j = sk::quatLogJacobian2<double>(u).cast<L>(); else j = sk::quatLogJacobian2<float>(u.cast<float>()).cast<L>();
      MX a(4, 1), b(4, 3); V4 z; z << v, 0; a = prod(z, q); for (int i = 0; i < 3; ++i) { z << Y.col(i), 0; b.col(i) = prod(z, q); }
      L tol = flt ? 2e-4L : f == "log1" ? 1e-8L : 1e-10L, s = std::sqrt(N),
      at = tol + (flt ? 4e-6L : 1e-13L) * N * (1 + n);
      J r = two(j * a / s, n / th / s * j * b, tol, at); MX jq = j * q; J o = J::arr();
      if (f != "log1") for (int i = 0; i < 3; ++i) o.push(integer(jq(i), 1, tol, at));
      return r.set("q", o);
    }
    if (op == "J") {
      L th2 = th + 2 * PI; Vector3d d = ints<Vector3d>(e["d"]); MX Z(3, 4); Z << v, X;
      MX j1 = th * th * jac(p, d) * Z, j2 = th2 * th2 * jac(v * (th2 / n), d) * Z, B = (j1 - j2) / (th - th2), A = j1 - th * B;
      L at = 5e-14L * N * (1 + n) * (1 + n) * (1 + n) * (1 + d.norm()) * (1 + std::fabs(t)) + 1e-9L;
      return two(N * A, N * n * B, 1e-9L, at);
    }
    throw std::logic_error(op);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
