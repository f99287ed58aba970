// Executes rotation algebra (spec/Rotations.tla).
#include "exact.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
using namespace ex;
namespace sk = sm::kinematics;

static sk::EulerAnglesZYX zyx; static sk::EulerAnglesYawPitchRoll ypr; static sk::EulerAnglesZXY zxy; static sk::EulerRodriguez rod; static sk::RotationVector rv;
// parameters to matrices with the classes, sometimes with the optional second result
template <class P> static Matrix3d params(const P& c, const Vector3d& p, bool s) { const sk::RotationalKinematics& k = c; if (!s) return k.parametersToRotationMatrix(p); Matrix3d S; return k.parametersToRotationMatrix(p, &S); }
static Matrix3d toR(const std::string& f, const Vector3d& p, int form) {
  if (f == "rph") return form % 2 ? sk::rph2R(p) : sk::rph2R(p[0], p[1], p[2]);
  if (f == "rphC") return form % 2 ? sk::rph2C(p) : sk::rph2C(p[0], p[1], p[2]);
  if (f == "zyx") return params(zyx, p, form % 2);
  if (f == "ypr") return params(ypr, p, form % 2);
  if (f == "zxy") return params(zxy, p, form % 2);
  throw std::logic_error("toR " + f);
}
static Vector3d toParams(const std::string& f, const Matrix3d& R, int form) {
  if (f == "rph") return sk::R2rph(R);
  if (f == "rphC") return sk::C2rph(R);
  const sk::RotationalKinematics& k = f == "zyx" ? (const sk::RotationalKinematics&)zyx : f == "ypr" ? (const sk::RotationalKinematics&)ypr : (const sk::RotationalKinematics&)zxy;
  return k.rotationMatrixToParameters(R);
}
struct Reg {
  std::string kind; Vector4d q; Matrix3d R; Vector3d p;
  Reg() : kind("quat"), q(0, 0, 0, 1) {}
  M3 meaning() const {
    if (kind == "quat") return matq(q.cast<L>());
    if (kind == "R") return R.cast<L>();
    if (kind == "aa") return matq(expq(p.cast<L>()));
    if (kind == "rod") { V4 v; v << p.cast<L>(), 1; return matq(v / std::sqrt(v.dot(v))); }
    return euler(kind, p.cast<L>());
  }
  void to(const std::string& f) {
    if (f == "quat2r") R = sk::quat2r(q), kind = "R";
    else if (f == "r2quat") q = sk::r2quat(R), kind = "quat";
    else if (f == "quat2AxisAngle") { Vector4d u = q.normalized(); p = sk::quat2AxisAngle(u), kind = "aa"; }
    else if (f == "axisAngle2quat") q = sk::axisAngle2quat(p), kind = "quat";
    else if (f == "axisAngle2R") R = sk::axisAngle2R(p), kind = "R";
    else if (f == "axisAngle2Rxyz") R = sk::axisAngle2R(p[0], p[1], p[2]), kind = "R";
    else if (f == "axisAngle2Raxis") { double n = p.norm(); Vector3d u = n == 0 ? Vector3d(0, 1, 0) : Vector3d(p / n); R = sk::axisAngle2R(n, u[0], u[1], u[2]), kind = "R"; }
    else if (f == "R2AxisAngle") p = sk::R2AxisAngle(R), kind = "aa";
    else if (f == "RotationVector") R = params(rv, p, false), kind = "R";
    else if (f == "toRotationVector") p = rv.rotationMatrixToParameters(R), kind = "aa";
    else if (f == "EulerRodriguez") R = params(rod, p, false), kind = "R";
    else if (f == "toEulerRodriguez") p = rod.rotationMatrixToParameters(R), kind = "rod";
    else if (f == "rph2R") R = toR("rph", p, 0), kind = "R";
    else if (f == "R2rph") p = sk::R2rph(R), kind = "rph";
    else if (f == "rph2C") R = toR("rphC", p, 0), kind = "R";
    else if (f == "C2rph") p = sk::C2rph(R), kind = "rphC";
    else if (f == "C2rphX") p = sk::C2rph(R), kind = "rphC";
    else if (f == "zyx" || f == "ypr" || f == "zxy") R = toR(f, p, 1), kind = "R";
    else if (f == "toZyx") p = toParams("zyx", R, 0), kind = "zyx";
    else if (f == "toYpr") p = toParams("ypr", R, 0), kind = "ypr";
    else if (f == "toZxy") p = toParams("zxy", R, 0), kind = "zxy";
    else throw std::logic_error("to " + f);
  }
};
struct D {
  Reg reg[4];
  J show(const Reg& r) { return J::obj().set("k", "rat").set("d", fracs(r.meaning())); }
  template <class S> static J toAA(const Matrix<S, 4, 1>& q, L scale) { Matrix<S, 3, 1> a = sk::quat2AxisAngle(q); return aa(a.template cast<L>(), scale, 4 * std::sqrt(2.0L) * PI, sizeof(S) == 4); }
  static J aa(const V3& a, L scale, L most, bool flt = false) {
    return (flt ? vec(expq(a), scale, 1e-5L, 1e-6L) : vec(expq(a), scale)).set("short", std::sqrt(a.dot(a)) <= most + 1e-6L);
  }
  J step(const J& e) {
    try { return run(e); }
    catch (const Off& x) { return J::obj().set("k", "off").set("what", x.what()); }
    catch (const std::exception& x) { return J::obj().set("k", "exc").set("what", std::string(x.what()).substr(0, 200)); }
  }
  // x / eps, integers up to terms of second order and rounding
  template <class M> static J limit(const M& x, L eps, bool flt = false, L more = 0) {
    J d = J::arr();
    for (int i = 0; i < x.size(); ++i) { L y = (L)x(i) / eps, n = std::floor(y + 0.5L); if (!(std::fabs(y - n) <= 30 * eps + 4e-15L / eps + (flt ? 1e-4L : 0) + more) || std::fabs(n) > 1e6L) throw Off("limit: " + std::to_string((double)y)); d.push((long long)n); }
    return J::obj().set("k", "vec").set("d", d);
  }
  static J limitm(const Matrix3d& x, L eps) { J d = J::arr(); for (int i = 0; i < 3; ++i) d.push(limit(Vector3d(x.row(i).transpose()), eps)["d"]); return J::obj().set("k", "mat").set("d", d); }
  J small(const J& e, const std::string& f, int form) {
    L eps = std::ldexp(1.0L, -e["k"].num()); Vector3d v = ints<Vector3d>(e["v"]) * (double)eps, a = 2 * v; V4 u; u << v.cast<L>(), 1; u /= std::sqrt(u.dot(u));
    Vector4d q = u.cast<double>(); Matrix3d I = Matrix3d::Identity(), R = matq(u).cast<double>();
    if (f == "quat2r") return limitm(sk::quat2r(q) - I, 2 * eps);
    if (f == "aa") return limitm((form ? sk::axisAngle2R(a) : sk::axisAngle2R(a[0], a[1], a[2])) - I, 2 * eps);
    if (f == "axis") { double n = a.norm(); return limitm((form ? sk::axisAngle2R(n, a[0] / n, a[1] / n, a[2] / n) : sk::axisAngle2R(-n, -a[0] / n, -a[1] / n, -a[2] / n)) - I, 2 * eps); }
    if (f == "rotvec") return limitm(params(rv, a, form) - I, 2 * eps);
    if (f == "rod") return limitm(params(rod, v, form) - I, 2 * eps);
    if (f == "rph" || f == "rphC" || f == "zyx" || f == "ypr" || f == "zxy") return limitm(toR(f, v, form) - I, eps);
    if (f == "aa2quat" || f == "update" || f == "r2quat") {
      Vector4d r = f == "update" ? sk::updateQuat(sk::quatIdentity(), a) : f == "r2quat" ? sk::r2quat(R) : form ? sk::qexp(a) : sk::axisAngle2quat(a);
      r[3] *= (double)eps; return limit(r, eps);
    }
    if (f == "double") return limit(sk::quat2AxisAngle(q), 2 * eps);
    if (f == "qlog") return limit(sk::qlog(q), 2 * eps);
    if (f == "float") { Vector4f uf = u.cast<float>(); return limit(sk::quat2AxisAngle(uf), 2 * eps, true); }
    if (f == "R2AxisAngle") return limit(sk::R2AxisAngle(R), 2 * eps);
    if (f == "rv") return limit(rv.rotationMatrixToParameters(R), 2 * eps);
    if (f == "R2rod") return limit(rod.rotationMatrixToParameters(R), eps);
    std::string g = f == "toRph" ? "rph" : f == "toRphC" ? "rphC" : f == "toZyx" ? "zyx" : f == "toYpr" ? "ypr" : "zxy";
    return limit(toParams(g, R, form), 2 * eps);
  }
  J half(const J& e, const std::string& f, int form) {
    L eps = std::ldexp(1.0L, -e["k"].num()), s = e["s"].num(), n = std::sqrt(norm2(e["u"])); V3 w = ints<Vector3d>(e["u"]).cast<L>() / n; V4 u; u << w, s * eps; u /= std::sqrt(u.dot(u));
    Vector4d q = u.cast<double>(); Matrix3d R = matq(u).cast<double>(); V3 a; bool flt = false;
    if (f == "aa2quat" || f == "r2quat") {
      Vector3d t = (w * (PI - 2 * s * eps)).cast<double>(); Vector4d r = f == "r2quat" ? sk::r2quat(R) : form ? sk::qexp(t) : sk::axisAngle2quat(t);
      Matrix<L, 4, 1> y; y << r.head<3>().cast<L>() * n * eps, (L)r[3]; return limit(y, eps);
    }
    if (f == "R2rod") { Vector3d r = rod.rotationMatrixToParameters(R); Matrix<L, 4, 1> y; y << r.cast<L>() * n * eps * eps, 1 / r.cast<L>().norm(); return limit(y, eps); }
    if (f == "double") a = sk::quat2AxisAngle(q).cast<L>();
    else if (f == "qlog") a = sk::qlog(q).cast<L>();
    else if (f == "float") { Vector4f uf = u.cast<float>(); a = sk::quat2AxisAngle(uf).cast<L>(); flt = true; }
    else a = (f == "R2AxisAngle" ? sk::R2AxisAngle(R) : rv.rotationMatrixToParameters(R)).cast<L>();
    L len = std::sqrt(a.dot(a)); Matrix<L, 4, 1> y; y << a / len * n * 2 * eps, PI - len; return limit(y, 2 * eps, flt, flt ? 1e-6L / eps : 0);
  }
  J run(const J& e) {
    const std::string op = e["op"].str(), f = e.has("f") ? e["f"].str() : "";
    int form = e.has("form") ? e["form"].num() : 0;
    if (op == "prod") {
      Vector4d q = ints<Vector4d>(e["q"]), p = ints<Vector4d>(e["p"]);
      return vec(f == "qplus" ? sk::qplus(q, p) : f == "qoplus" ? sk::qoplus(q, p) : f == "quatPlus" ? Vector4d(sk::quatPlus(q) * p) : Vector4d(sk::quatOPlus(q) * p), 1);
    }
    if (op == "update") { V3 a = axisangle(e["p"], e["t"].num()); Vector4d u = unitq(e["q"]).cast<double>(); Vector3d b = a.cast<double>(); return vec(sk::updateQuat(u, b), std::sqrt(norm2(e["q"]) * norm2(e["p"]))); }
    if (op == "inv") { Vector4d q = ints<Vector4d>(e["q"]); if (form) { sk::invertQuat(q); return vec(q, 1); } return vec(sk::quatInv(q), 1); }
    if (op == "parts") {
      Vector4d q = ints<Vector4d>(e["q"]), d;
      d << sk::qeps(q), sk::qeta(q);
      return vec(d, 1);
    }
    if (op == "identity") return vec(sk::quatIdentity(), 1);
    if (op == "toR") {
      L n = norm2(e["q"]);
      if (f == "quat2r") return mat(sk::quat2r(unitq(e["q"]).cast<double>()), n);
      if (f == "rod") { Vector3d p = ints<Vector4d>(e["q"]).head<3>() / (double)e["q"][3].num(); return mat(params(rod, p, form), n); }
      V3 a = axisangle(e["q"], e["t"].num()); Vector3d p = a.cast<double>();
      if (f == "aa") return mat(form ? sk::axisAngle2R(p) : sk::axisAngle2R(p[0], p[1], p[2]), n);
      if (f == "axis") {   // an angle, possibly negative, and an axis
        L len = std::sqrt(a.dot(a)); V3 u = len == 0 ? V3(0.6L, 0, 0.8L) : V3(a / len); if (form) { u = -u; len = -len; }
        return mat(sk::axisAngle2R((double)len, (double)u[0], (double)u[1], (double)u[2]), n);
      }
      return mat(params(rv, p, form), n);
    }
    L n = e.has("q") ? norm2(e["q"]) : 0;
    if (op == "r2quat") return vec(sk::r2quat(matq(unitq(e["q"])).cast<double>()), std::sqrt(n));
    if (op == "toAA") {
      if (f == "double" || f == "qlog") {
        Vector4d u = unitq(e["q"]).cast<double>(); Vector3d a = f == "qlog" ? sk::qlog(u) : sk::quat2AxisAngle(u);
        return aa(a.cast<L>(), std::sqrt(n), 2 * PI);
      }
      Vector4f u = unitq(e["q"]).cast<float>(); if (f == "float") return aa(sk::quat2AxisAngle(u).cast<L>(), std::sqrt(n), 2 * PI, true);
      Matrix3d R = matq(unitq(e["q"])).cast<double>();
      return aa((f == "R2AxisAngle" ? sk::R2AxisAngle(R) : rv.rotationMatrixToParameters(R)).cast<L>(), std::sqrt(n), PI);
    }
    if (op == "aa2quat") { Vector3d p = axisangle(e["q"], e["t"].num()).cast<double>(); return vec(form ? sk::qexp(p) : sk::axisAngle2quat(p), std::sqrt(n)); }
    if (op == "rotate") return vec(sk::quatRotate(unitq(e["q"]).cast<double>(), ints<Vector3d>(e["v"])), n);
    if (op == "R2rod") return vec(rod.rotationMatrixToParameters(matq(unitq(e["q"])).cast<double>()), (L)e["q"][3].num());
    if (op == "principal") {
      double a = (double)angle(e["a"]); L m = (L)e["a"]["s"].num() * e["a"]["s"].num() + (L)e["a"]["c"].num() * e["a"]["c"].num();
      return mat(f == "Rx" ? sk::Rx(a) : f == "Ry" ? sk::Ry(a) : f == "Rz" ? sk::Rz(a) : f == "Cx" ? sk::Cx(a) : f == "Cy" ? sk::Cy(a) : sk::Cz(a), m, 1e-11L, 1e-12L);
    }
    if (op == "euler" || op == "same") {
      Vector3d p; L m = 1;
      for (int i = 0; i < 3; ++i) { const J& a = e["a"][i]; p[i] = (double)angle(a); m *= (L)a["s"].num() * a["s"].num() + (L)a["c"].num() * a["c"].num(); }
      if (op == "same") {
        Vector3d b = toParams(f, toR(f, p, form), form); bool same = true;
        for (int i = 0; i < 3; ++i) same = same && std::fabs(std::remainder(b[i] - p[i], (double)(2 * PI))) < 1e-7;
        return J::obj().set("k", "same").set("same", same);
      }
      if (f == "rphC" && form == 2) { VectorXd x = p; return mat(sk::rph2C(x), m, 1e-11L, 1e-12L); }
      return mat(toR(f, p, form), m, 1e-11L, 1e-12L);
    }
    if (op == "toEuler") return mat(euler(f, toParams(f, matq(unitq(e["q"])).cast<double>(), form).cast<L>()), n, 1e-9L, 1e-9L);
    if (op == "angleMod") {
      double r = sk::angleMod((double)angle(e["a"])); L m = (L)e["a"]["s"].num() * e["a"]["s"].num() + (L)e["a"]["c"].num() * e["a"]["c"].num();
      Vector2d v(std::cos(r), std::sin(r));
      return vec(v, m, 1e-11L, 1e-14L * (2 + std::abs((long)e["a"]["t"].num()))).set("inside", std::fabs(r) <= (double)PI * (1 + 1e-12) + 1e-14 * std::abs((long)e["a"]["t"].num()));
    }
    if (op == "deg2rad") { Matrix<L, 1, 1> v; v << (L)sk::deg2rad(e["n"].num()) * 180 / PI; return vec(v, 1); }
    if (op == "rad2deg") { Matrix<L, 1, 1> v; v << (L)sk::rad2deg((double)(e["n"].num() * PI / 180)); return vec(v, 1); }
    if (op == "small") return small(e, f, form);
    if (op == "half") return half(e, f, form);
    if (op == "gimbal") {
      L eps = std::ldexp(1.0L, -e["k"].num()); Vector3d p(angle(e["a"][0]), e["s"].num() * (PI / 2 - eps), angle(e["a"][1])), b = toParams(f, toR(f, p, form), form);
      Vector2d r(b[1] < 0 ? -eps : eps, (double)(PI / 2 - std::fabs((L)b[1])));
      bool same = true; for (int i = 0; i < 3; i += 2) same = same && std::fabs(std::remainder(b[i] - p[i], (double)(2 * PI))) < 1e-11 + 1e-15 / eps;
      return limit(r, eps).set("same", same);
    }
    if (op == "cross") {
      Vector3d v = ints<Vector3d>(e["v"]); Vector3f w = v.cast<float>(); VectorXd x = v; VectorXf y = w;
      switch (form) {
        case 0: return mat(sk::crossMx(v[0], v[1], v[2]), 1); case 1: return mat(sk::crossMx(v), 1); case 2: return mat(sk::crossMx(x), 1);
        case 3: return mat(sk::crossMx(w[0], w[1], w[2]), 1); case 4: return mat(sk::crossMx(w), 1); default: return mat(sk::crossMx(y), 1);
      }
    }
    if (op == "quatS") return mat(sk::quatS(ints<Vector4d>(e["q"])), 1);
    if (op == "quatInvS2") return mat(form ? sk::quatInvS(ints<Vector4d>(e["q"])) : sk::quatJacobian(ints<Vector4d>(e["q"])), 2);

    Reg& r = reg[e["i"].num()];
    if (op == "set") { r = Reg(); r.q = unitq(e["q"]).cast<double>(); return show(r); }
    if (op == "to") { r.to(f); return show(r); }
    if (op == "mul") {
      Reg &b = reg[e["j"].num()], c;
      if (r.kind != b.kind) return J::obj().set("k", "kind");
      c.kind = r.kind; if (c.kind == "quat") c.q = form ? sk::qoplus(b.q, r.q) : sk::qplus(r.q, b.q); else c.R = r.R * b.R;
      reg[e["n"].num()] = c; return show(c);
    }
    if (op == "rinv") {
      Reg c = r; if (c.kind == "quat") c.q = sk::quatInv(c.q); else if (c.kind == "R") c.R = r.R.transpose().eval(); else c.p = -c.p;
      reg[e["n"].num()] = c; return show(c);
    }
    if (op == "rotv") { Vector3d v = ints<Vector3d>(e["v"]); Vector3d w = r.kind == "quat" ? sk::quatRotate(r.q, v) : Vector3d(r.R * v); return J::obj().set("k", "ratv").set("d", fracv(w)); }
    if (op == "get") return show(r);
    throw std::logic_error("op " + op);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
