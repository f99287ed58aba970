// Executes the assertion macros of sm_common (spec/Asserts.tla).  Built with and without NDEBUG, ALWAYS_ASSERT and SM_ALWAYS_ASSERT.
#include <cmath>
#include <limits>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include "vdrv.hpp"
#include <sm/assert_macros.hpp>
using vd::J;
using std::isfinite;
using std::isnan;

SM_DEFINE_EXCEPTION(Base, std::runtime_error);
SM_DEFINE_EXCEPTION(Derived, Base);
SM_DEFINE_EXCEPTION(Logic, std::logic_error);

static int g_evals, g_notes;
static std::string g_at;
template <class T> static T ev(const T& v) { ++g_evals; return v; }
static std::string note(const std::string& s) { ++g_notes; return s; }
#define AT (g_at = std::string(__FILE__) + ":" + std::to_string(__LINE__) + ": " + __FUNCTION__ + "()")

// one call site per macro, way of writing the operand, and exception type; T is the type of the operands
#define SITE3(NAME, ...) if (op == NAME) { \
  if (form == "name") { AT; __VA_ARGS__(val) } \
  else if (form == "cond") { AT; __VA_ARGS__(sel ? val : other) } \
  else { AT; __VA_ARGS__(ev(val)) } return true; }

template <class Exc, class T> static bool compare(const std::string& op, const std::string& form, T val, T bnd, T up, bool sel, T other, const std::string& msg) {
#define M_(X, V) X(Exc, V, "because " << note(msg) << '!');
#define M1(X, V) X(Exc, V, bnd, "because " << note(msg) << '!');
#define M2(X, V) X(Exc, V, bnd, up, "because " << note(msg) << '!');
#define S0(N) SITE3(#N, S0_##N) SITE3(#N "_DBG", S0_##N##_DBG)
#define S1(N) SITE3(#N, S1_##N) SITE3(#N "_DBG", S1_##N##_DBG)
#define S2(N) SITE3(#N, S2_##N) SITE3(#N "_DBG", S2_##N##_DBG)
#define S1_GE(V) M1(SM_ASSERT_GE, V)
#define S1_GE_DBG(V) M1(SM_ASSERT_GE_DBG, V)
#define S1_GT(V) M1(SM_ASSERT_GT, V)
#define S1_GT_DBG(V) M1(SM_ASSERT_GT_DBG, V)
#define S1_LE(V) M1(SM_ASSERT_LE, V)
#define S1_LE_DBG(V) M1(SM_ASSERT_LE_DBG, V)
#define S1_LT(V) M1(SM_ASSERT_LT, V)
#define S1_LT_DBG(V) M1(SM_ASSERT_LT_DBG, V)
#define S1_EQ(V) M1(SM_ASSERT_EQ, V)
#define S1_EQ_DBG(V) M1(SM_ASSERT_EQ_DBG, V)
#define S1_NE(V) M1(SM_ASSERT_NE, V)
#define S1_NE_DBG(V) M1(SM_ASSERT_NE_DBG, V)
#define S2_GE_LT(V) M2(SM_ASSERT_GE_LT, V)
#define S2_GE_LT_DBG(V) M2(SM_ASSERT_GE_LT_DBG, V)
#define S2_GT_LE(V) M2(SM_ASSERT_GT_LE, V)
#define S2_GT_LE_DBG(V) M2(SM_ASSERT_GT_LE_DBG, V)
#define S2_GE_LE(V) M2(SM_ASSERT_GE_LE, V)
#define S2_GE_LE_DBG(V) M2(SM_ASSERT_GE_LE_DBG, V)
#define S2_NEAR(V) M2(SM_ASSERT_NEAR, V)
#define S2_NEAR_DBG(V) M2(SM_ASSERT_NEAR_DBG, V)
#define S0_POSITIVE(V) M_(SM_ASSERT_POSITIVE, V)
#define S0_POSITIVE_DBG(V) M_(SM_ASSERT_POSITIVE_DBG, V)
#define S0_NONNEGATIVE(V) M_(SM_ASSERT_NONNEGATIVE, V)
#define S0_NONNEGATIVE_DBG(V) M_(SM_ASSERT_NONNEGATIVE_DBG, V)
#define S0_NEGATIVE(V) M_(SM_ASSERT_NEGATIVE, V)
#define S0_NEGATIVE_DBG(V) M_(SM_ASSERT_NEGATIVE_DBG, V)
#define S0_NONPOSITIVE(V) M_(SM_ASSERT_NONPOSITIVE, V)
#define S0_NONPOSITIVE_DBG(V) M_(SM_ASSERT_NONPOSITIVE_DBG, V)
#define S0_ZERO(V) M_(SM_ASSERT_ZERO, V)
#define S0_ZERO_DBG(V) M_(SM_ASSERT_ZERO_DBG, V)
#define S0_FINITE(V) M_(SM_ASSERT_FINITE, V)
#define S0_FINITE_DBG(V) M_(SM_ASSERT_FINITE_DBG, V)
#define S0_NOTNAN(V) M_(SM_ASSERT_NOTNAN, V)
#define S0_NOTNAN_DBG(V) M_(SM_ASSERT_NOTNAN_DBG, V)
  S1(GE) S1(GT) S1(LE) S1(LT) S1(EQ) S1(NE) S2(GE_LT) S2(GT_LE) S2(GE_LE) S2(NEAR)
  S0(POSITIVE) S0(NONNEGATIVE) S0(NEGATIVE) S0(NONPOSITIVE) S0(ZERO) S0(FINITE) S0(NOTNAN)
  return false;
}

template <class Exc> static bool truth(const std::string& op, const std::string& form, bool val, bool sel, bool other, const std::string& msg) {
#define S0_TRUE(V) M_(SM_ASSERT_TRUE, V)
#define S0_TRUE_DBG(V) M_(SM_ASSERT_TRUE_DBG, V)
#define S0_FALSE(V) M_(SM_ASSERT_FALSE, V)
#define S0_FALSE_DBG(V) M_(SM_ASSERT_FALSE_DBG, V)
  S0(TRUE) S0(FALSE)
  if (op == "THROW") { AT; SM_THROW(Exc, "because " << note(msg) << '!') }
  if (op == "THROW_DBG") { AT; SM_THROW_DBG(Exc, "because " << note(msg) << '!') return true; }
  if (op == "THROW_SFP") { g_at = "there.cpp:12: where()"; SM_THROW_SFP(Exc, sm::source_file_pos("where", "there.cpp", 12), "because " << note(msg) << '!') }
  if (op == "throw") { AT; sm::sm_assert_throw<Exc>(form == "cond" ? (sel ? val : other) : val, "because " + note(msg) + "!", SM_SOURCE_FILE_POS); return true; }
  return false;
}

template <class Exc, class P> static bool pointer(const std::string& op, const std::string& form, P val, bool sel, P other, const std::string& msg) {
#define S0_NULL(V) M_(SM_ASSERT_NULL, V)
#define S0_NOTNULL(V) M_(SM_ASSERT_NOTNULL, V)
#define S0_NOTNULL_DBG(V) M_(SM_ASSERT_NOTNULL_DBG, V)
  SITE3("NULL", S0_NULL)
  SITE3("NOTNULL", S0_NOTNULL) SITE3("NOTNULL_DBG", S0_NOTNULL_DBG)
  return false;
}

static double number(const J& v) {
  const std::string s = v["s"].str();
  if (s == "nan") return std::numeric_limits<double>::quiet_NaN();
  if (s == "inf") return std::numeric_limits<double>::infinity();
  if (s == "ninf") return -std::numeric_limits<double>::infinity();
  return v["q"].num() / 4.0;
}

template <class Exc> static bool call(const J& e) {
  const std::string op = e["op"].str(), form = e["form"].str(), msg = e["msg"].str(), ty = e["ty"].str();
  bool sel = e["sel"].boolean();
  const J &v = e["v"], &b = e["b"], &u = e["u"];
  // the operand is val, ev(val) or (sel ? val : other): in the last form the value goes to the branch that is taken
  const bool first = sel || form != "cond";
#define ARGS(x, y) first ? (x) : (y)
  if (ty == "double") { double x = number(v), y = x + 1; return compare<Exc, double>(op, form, ARGS(x, y), number(b), number(u), sel, ARGS(y, x), msg); }
  if (ty == "float") { float x = number(v), y = x + 1; return compare<Exc, float>(op, form, ARGS(x, y), number(b), number(u), sel, ARGS(y, x), msg); }
  if (ty == "int") { int x = v["q"].num(), y = x ? 0 : 1; return compare<Exc, int>(op, form, ARGS(x, y), b["q"].num(), u["q"].num(), sel, ARGS(y, x), msg); }
  if (ty == "unsigned") { unsigned x = v["q"].num(), y = x ? 0 : 1; return compare<Exc, unsigned>(op, form, ARGS(x, y), b["q"].num(), u["q"].num(), sel, ARGS(y, x), msg); }
  if (ty == "bool") { bool x = v["q"].num() != 0; return truth<Exc>(op, form, ARGS(x, !x), sel, ARGS(!x, x), msg); }
  static int target;
  bool x = v["q"].num() != 0;
  if (ty == "ptr") { int *p = x ? &target : 0, *q = x ? 0 : &target; return pointer<Exc, int*>(op, form, ARGS(p, q), sel, ARGS(q, p), msg); }
  boost::shared_ptr<int> p, q;
  (x ? p : q) = boost::make_shared<int>(3);
  return pointer<Exc, boost::shared_ptr<int> >(op, form, ARGS(p, q), sel, ARGS(q, p), msg);
}

struct D {
  J step(const J& e) {
    g_evals = g_notes = 0;
    g_at = "";
    if (e["op"].str() == "position") {
      sm::source_file_pos p(e["fn"].str(), e["file"].str(), e["line"].num());
      std::ostringstream o;
      o << p << p;
      return J::obj().set("k", "position").set("str", p.toString()).set("conv", std::string(p)).set("twice", o.str());
    }
    const std::string x = e["exc"].str();
    bool known = true;
    std::string type = "none", what, as;
    auto go = [&] {
      if (x == "Base") known = call<Base>(e); else if (x == "Derived") known = call<Derived>(e); else if (x == "Logic") known = call<Logic>(e); else known = call<std::runtime_error>(e);
    };
    try { try { go(); }
      catch (const Base& b) { as = "Base"; throw; }
      catch (const std::runtime_error& b) { as = "runtime_error"; throw; }
      catch (const std::logic_error& b) { as = "logic_error"; throw; } }
    catch (const std::exception& b) {
      const std::type_info& t = typeid(b);
      type = t == typeid(Derived) ? "Derived" : t == typeid(Base) ? "Base" : t == typeid(Logic) ? "Logic" : t == typeid(std::runtime_error) ? "std::runtime_error" : t.name();
      what = b.what();
    }
    if (!known) { std::cerr << "driver: unknown op " << e["op"].str() << std::endl; _exit(97); }
    return J::obj().set("k", "assert").set("type", type).set("as", as).set("what", what).set("at", g_at).set("evals", g_evals).set("notes", g_notes);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }
