// Executes the numerical helpers of sm_eigen (spec/EigenFns.tla).  Built with and without NDEBUG.
#include "vdrv.hpp"
#include <limits>
#include <Eigen/Core>
#include <gtest/gtest.h>
#include <gtest/gtest-spi.h>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/NumericalDiff.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <sm/eigen/gtest.hpp>
using vd::J;
using namespace Eigen;

SM_DEFINE_EXCEPTION(First, std::runtime_error);
SM_DEFINE_EXCEPTION(Second, std::logic_error);

static MatrixXd ints(const J& v, int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = v[i][j].num(); return m; }
// the matrix of integers within tol of m / scale
template <class M> static J rounded(const M& m, double scale, double tol) {
  J d = J::arr();
  for (int i = 0; i < m.rows(); ++i) {
    J row = J::arr();
    for (int j = 0; j < m.cols(); ++j) {
      double x = (double)m(i, j) / scale, n = std::floor(x + 0.5);
      if (!(std::fabs(x - n) <= tol)) return J::obj().set("k", "off").set("i", i).set("j", j).set("x", std::to_string(x));
      row.push((long long)n);
    }
    d.push(row);
  }
  return J::obj().set("k", "mat").set("d", d).set("rows", (int)m.rows()).set("cols", (int)m.cols());
}

template <class M> static J root(const MatrixXd& g, const std::string& form, int n, double scale) {
  typedef typename M::Scalar S;
  M a = (g * g.transpose() * scale * scale).cast<S>(), keep = a, s;
  if (form == "expr") sm::eigen::computeMatrixSqrt((a + a) / S(2), s);
  else if (form == "block") { MatrixXd big = MatrixXd::Constant(n + 2, n + 2, 7.0); big.block(1, 1, n, n) = a.template cast<double>(); M in = M::Zero(n, n); in = big.block(1, 1, n, n).template cast<S>(); sm::eigen::computeMatrixSqrt(in, s); }
  else if (form == "used") { int d = (int)M::RowsAtCompileTime == Dynamic ? 2 : 0; s = M::Constant(n + d, n + d, S(3)); sm::eigen::computeMatrixSqrt(a, s); }
  else sm::eigen::computeMatrixSqrt(a, s);
  return rounded(s * s.transpose(), scale * scale, 0.3).set("same", a == keep);
}

template <class S> struct Poly {
  typedef Matrix<S, Dynamic, 1> V;
  std::vector<Matrix<S, Dynamic, Dynamic> > q; Matrix<S, Dynamic, Dynamic> b; V c;
  template <class X> V f(const X& x) const { V y(c.size()); for (int i = 0; i < c.size(); ++i) y(i) = (x.transpose() * q[i] * x)(0, 0) + b.row(i) * x + c(i); return y; }
};
template <class S, class JAC, class X> struct Moved {
  typedef Matrix<S, Dynamic, 1> value_t; typedef S scalar_t; typedef X input_t; typedef JAC jacobian_t;
  const Poly<S>* p; Matrix<S, Dynamic, Dynamic> D;
  value_t operator()(const input_t& x) { return p->f(x); }
  input_t update(const input_t& x, int c, S delta) { return x + delta * D.col(c); }
};
template <class S, class JAC, class X> static J diffs(const J& e) {
  int n = e["n"].num(), m = e["m"].num();
  Poly<S> p; for (int i = 0; i < m; ++i) p.q.push_back(ints(e["q"][i], n, n).template cast<S>());
  p.b = ints(e["b"], m, n).template cast<S>(); p.c.resize(m); for (int i = 0; i < m; ++i) p.c(i) = e["cc"][i].num();
  X x(n); for (int i = 0; i < n; ++i) x(i) = e["x"][i].num();
  const std::string via = e["via"].str();
  const bool dflt = e["eps"].num() == 99;
  S eps = dflt ? S(1) : std::ldexp(S(1), e["eps"].num());
  typedef Matrix<S, Dynamic, 1> V;
  typedef sm::eigen::NumericalDiffFunctor<V, X, JAC> Fn;
  JAC Jm;
  if (via == "moved") {
    Moved<S, JAC, X> f; f.p = &p; f.D = ints(e["dd"], n, n).template cast<S>();
    sm::eigen::NumericalDiff<Moved<S, JAC, X> > d = dflt ? sm::eigen::NumericalDiff<Moved<S, JAC, X> >(f) : sm::eigen::NumericalDiff<Moved<S, JAC, X> >(f, eps);
    Jm = d.estimateJacobian(x);
  } else if (via == "class") {
    Fn f([&p](X y) { return p.f(y); });
    sm::eigen::NumericalDiff<Fn> d = dflt ? sm::eigen::NumericalDiff<Fn>(f) : sm::eigen::NumericalDiff<Fn>(f, eps);
    d.estimateJacobian(x);  // a second use of the same object
    Jm = d.estimateJacobian(x);
  } else {
    std::function<V(const X&)> f = [&p](const X& y) { return p.f(y); };
    MatrixXd r = dflt ? sm::eigen::numericalDiff<V, X>(f, x) : sm::eigen::numericalDiff<V, X>(f, x, eps);
    Jm = r.template cast<typename JAC::Scalar>();
  }
  return rounded(Jm, 1.0, sizeof(S) == 4 ? 0.2 : 0.01);
}

template <class Exc, class M> static J finite(const M& mat, bool dbg, const std::string& msg) {
  try { if (dbg) { SM_ASSERT_MAT_IS_FINITE_DBG(Exc, mat, " because " << msg << '!'); } else { SM_ASSERT_MAT_IS_FINITE(Exc, mat, " because " << msg << '!'); } }
  catch (const std::exception& x) {
    std::string t = dynamic_cast<const First*>(&x) ? "First" : dynamic_cast<const Second*>(&x) ? "Second" : "other", w = x.what();
    int r = -1, c = -1; size_t k = w.find("mat("); if (k != std::string::npos) std::sscanf(w.c_str() + k, "mat(%d, %d)", &r, &c);
    return J::obj().set("k", "exc").set("t", t).set("row", r).set("col", c).set("msg", w.find("because " + msg + "!") != std::string::npos);
  }
  return vd::rOk();
}
static double odd(int c) { return c == 1 ? std::numeric_limits<double>::quiet_NaN() : c == 2 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); }
static double number(const J& v) {
  const std::string s = v["s"].str();
  if (s != "num") return odd(s == "nan" ? 1 : s == "inf" ? 2 : 3);
  return (double)v["q"].num() / std::pow(10.0, v["k"].num());
}
static MatrixXd numbers(const J& v, int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = number(v[i][j]); return m; }
static void check_mx(const MatrixXd& a, const MatrixXd& b, double p) { ASSERT_DOUBLE_MX_EQ(a, b, p, "comparing"); }
static void check(const std::string& f, const MatrixXd& a, const MatrixXd& b, double p) {
  if (f == "eq") sm::eigen::assertEqual(a, b, SM_SOURCE_FILE_POS, "m"); else if (f == "near") sm::eigen::assertNear(a, b, p, SM_SOURCE_FILE_POS, "m");
  else if (f == "enear") sm::eigen::expectNear(a, b, p, SM_SOURCE_FILE_POS, "m"); else if (f == "fin") sm::eigen::assertFinite(a, SM_SOURCE_FILE_POS, "m"); else check_mx(a, b, p);
}

struct D {
  J step(const J& e) {
    const std::string op = e["op"].str(), ty = op == "sqrt" || op == "diff" ? e["ty"].str() : "";
    if (op == "sqrt") {
      int n = e["n"].num(); MatrixXd g = ints(e["g"], n, e["w"].num()); double sc = std::ldexp(1.0, e["scale"].num()); const std::string f = e["form"].str();
      if (ty == "fixed" && n == 2) return root<Matrix2d>(g, f, n, sc);
      if (ty == "fixed" && n == 3) return root<Matrix3d>(g, f, n, sc);
      if (ty == "row") return root<Matrix<double, Dynamic, Dynamic, RowMajor> >(g, f, n, sc);
      if (ty == "float") return root<MatrixXf>(g, f, n, sc);
      return root<MatrixXd>(g, f, n, sc);
    }
    if (op == "diff") {
      if (ty == "float") return diffs<float, MatrixXf, VectorXf>(e);
      if (ty == "floatd") return diffs<float, MatrixXd, VectorXf>(e);
      if (ty == "fixed" && e["n"].num() == 2) return diffs<double, Matrix<double, Dynamic, 2>, Vector2d>(e);
      return diffs<double, MatrixXd, VectorXd>(e);
    }
    if (op == "finite") {
      int r = e["rr"].num(), c = e["c"].num(); MatrixXd m(r, c);
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { int k = e["v"][i][j].num(); m(i, j) = k ? odd(k) : (i - j) * 1e300; }
      bool dbg = e["dbg"].boolean(), f = e["exc"].str() == "First"; const std::string msg = e["msg"].str();
      if (e["flt"].boolean()) { MatrixXf mf = (m * 1e-290).cast<float>(); return f ? finite<First>(mf, dbg, msg) : finite<Second>(mf, dbg, msg); }
      if (r == 2 && c == 2) { Matrix2d m2 = m; return f ? finite<First>(m2, dbg, msg) : finite<Second>(m2, dbg, msg); }
      return f ? finite<First>(m, dbg, msg) : finite<Second>(m, dbg, msg);
    }
    if (op == "rel") {
      double a = number(e["a"]), b = number(e["b"]), p = e["p"].num() / 8.0, err = 0;
      bool ab = sm::eigen::compareRelative(a, b, p, &err), ba = sm::eigen::compareRelative(b, a, p);
      return J::obj().set("k", "rel").set("ab", ab).set("ba", ba).set("err", std::isfinite(err) && std::fabs(err) < 1e6 ? (int)err : -1);
    }
    MatrixXd a = numbers(e["a"], e["rr"].num(), e["c"].num()), b = numbers(e["b"], e["r2"].num(), e["c2"].num());
    testing::TestPartResultArray out;
    {
      testing::ScopedFakeTestPartResultReporter rep(testing::ScopedFakeTestPartResultReporter::INTERCEPT_ALL_THREADS, &out);
      check(e["f"].str(), a, b, e["p"].num() / 8.0);
    }
    bool fatal = false; for (int i = 0; i < out.size(); ++i) fatal = fatal || out.GetTestPartResult(i).fatally_failed();
    return J::obj().set("k", "test").set("fails", out.size()).set("fatal", fatal);
  }
};
int main(int argc, char** argv) { testing::InitGoogleTest(&argc, argv); return vd::run<D>(argc, argv); }
