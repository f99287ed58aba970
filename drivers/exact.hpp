// Exact numbers for the kinematics drivers: integers after scaling, fractions.
#pragma once
#include "vdrv.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace ex {
using vd::J;
using namespace Eigen;
typedef long double L;
struct Off : std::runtime_error { Off(const std::string& s) : std::runtime_error(s) {} };

// the integer x times scale, within a relative error and an absolute one in units of the scale
inline long long integer(L x, L scale, L rel = 1e-11L, L abs = 1e-13L) {
  L y = x * scale, n = std::floor(y + 0.5L);
  if (!(std::fabs(y - n) <= rel * std::fabs(n) + abs * std::max(scale, L(1)) + 1e-13L) || std::fabs(n) > 2.1e9L) throw Off("not exact: " + std::to_string((double)y));
  return (long long)n;
}
// the fraction with a denominator up to maxd that is x
inline J fraction(L x, long maxd = 3000, L tol = 1e-9L) {
  if (!(std::fabs(x) < 1e6L)) throw Off("not finite: " + std::to_string((double)x));
  L neg = x < 0 ? -1 : 1, y = std::fabs(x);
  long long p0 = 0, q0 = 1, p1 = 1, q1 = 0; L z = y;
  for (int k = 0; k < 40; ++k) {
    long long a = (long long)std::floor(z);
    long long p = a * p1 + p0, q = a * q1 + q0;
    if (q > maxd || p > 2000000000LL) break;
    p0 = p1; q0 = q1; p1 = p; q1 = q;
    if (std::fabs(y - (L)p1 / q1) <= tol) return J::arr().push((long long)(neg * p1)).push(q1);
    z = 1 / (z - a);
  }
  throw Off("not a fraction: " + std::to_string((double)x));
}
template <class M> J vec(const M& m, L scale, L rel = 1e-11L, L abs = 1e-13L) {
  J d = J::arr(); for (int i = 0; i < m.size(); ++i) d.push(integer(m(i), scale, rel, abs));
  return J::obj().set("k", "vec").set("d", d);
}
template <class M> J mat(const M& m, L scale, L rel = 1e-11L, L abs = 1e-13L) {
  J d = J::arr();
  for (int i = 0; i < m.rows(); ++i) { J row = J::arr(); for (int j = 0; j < m.cols(); ++j) row.push(integer(m(i, j), scale, rel, abs)); d.push(row); }
  return J::obj().set("k", "mat").set("d", d);
}
template <class M> J fracs(const M& m, long maxd = 3000, L tol = 1e-9L) {
  J d = J::arr();
  for (int i = 0; i < m.rows(); ++i) { J row = J::arr(); for (int j = 0; j < m.cols(); ++j) row.push(fraction(m(i, j), maxd, tol)); d.push(row); }
  return d;
}
template <class M> J fracv(const M& m, long maxd = 3000, L tol = 1e-9L) { J d = J::arr(); for (int i = 0; i < m.size(); ++i) d.push(fraction(m(i), maxd, tol)); return d; }
template <class V> V ints(const J& v) { V r; for (int i = 0; i < (int)r.size(); ++i) r(i) = v[i].num(); return r; }
template <class M> M intm(const J& v) { M r; for (int i = 0; i < (int)r.rows(); ++i) for (int j = 0; j < (int)r.cols(); ++j) r(i, j) = v[i][j].num(); return r; }

// independent meanings of the representations, in long double
typedef Matrix<L, 3, 3> M3; typedef Matrix<L, 3, 1> V3; typedef Matrix<L, 4, 1> V4;
const L PI = 3.14159265358979323846264338327950288L;
inline V4 expq(const V3& a) { L t = std::sqrt(a.dot(a)); V4 q; L s = t == 0 ? 0.5L : std::sin(t / 2) / t; q << a * s, std::cos(t / 2); return q; }
inline M3 matq(const V4& q) {
  L a = q[0], b = q[1], c = q[2], d = q[3]; M3 m;
  m << a*a - b*b - c*c + d*d, 2*(a*b + c*d), 2*(a*c - b*d), 2*(a*b - c*d), -a*a + b*b - c*c + d*d, 2*(a*d + b*c), 2*(a*c + b*d), 2*(b*c - a*d), -a*a - b*b + c*c + d*d;
  return m;
}
inline M3 turn(int axis, L x) {   // active
  int i = (axis + 1) % 3, j = (axis + 2) % 3; M3 m = M3::Identity();
  m(i, i) = m(j, j) = std::cos(x); m(j, i) = std::sin(x); m(i, j) = -std::sin(x); return m;
}
inline M3 euler(const std::string& f, const V3& a) {
  if (f == "rph") return turn(2, a[2]) * turn(1, a[1]) * turn(0, a[0]);
  if (f == "rphC") return turn(2, -a[2]) * turn(1, -a[1]) * turn(0, -a[0]);
  if (f == "zyx") return turn(2, -a[0]) * turn(1, -a[1]) * turn(0, -a[2]);
  if (f == "ypr") return turn(2, a[0]) * turn(1, a[1]) * turn(0, a[2]);
  return turn(2, a[0]) * turn(0, a[1]) * turn(1, a[2]);
}
inline L angle(const J& a) { return 2 * std::atan2((L)a["s"].num(), (L)a["c"].num()) + 2 * PI * a["t"].num(); }
inline V3 axisangle(const J& q, int turns) {
  V3 v(q[0].num(), q[1].num(), q[2].num()); L n = std::sqrt(v.dot(v)), th = 2 * std::atan2(n, (L)q[3].num()) + 2 * PI * turns;
  if (n == 0) return V3(0, 0, th);
  return v / n * th;
}
inline L norm2(const J& q) { L s = 0; for (size_t i = 0; i < q.size(); ++i) s += (L)q[i].num() * q[i].num(); return s; }
inline V4 unitq(const J& q) { V4 v(q[0].num(), q[1].num(), q[2].num(), q[3].num()); return v / std::sqrt(norm2(q)); }
}
