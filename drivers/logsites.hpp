// All log macros, instantiated for every level and variant; two static sites each.
#pragma once
#include <string>
#include <sm/logging.hpp>
struct LogArgs {
  int level = 0;                 // for the generic macros
  bool cond = true;
  double rate = 0;
  std::string text, padding;
  int number = 0;
  std::function<void()> nested;  // run when the arguments are evaluated
  int evals = 0, condEvals = 0, line = 0;
  const char* t() { evals++; if (nested) nested(); return text.c_str(); }
  const char* p() { return padding.c_str(); }
  int n() { return number; }
  bool c() { condEvals++; return cond; }
};
static const char* const kNames[2] = {"a", "b.c"};
#define F_ "%d:%s%s", A.n(), A.t(), A.p()
#define S_ A.n() << ":" << A.t() << A.p()
// variant: bit 0: stream, bit 1: named, bits 2..3: plain, cond, once, throttle
#define SITES(LV)                                                                        \
  template <int I> struct Sites_##LV {                                                   \
    static void run(int variant, LogArgs& A) {                                           \
      A.line = __LINE__;                                                                 \
      const std::string name(kNames[I]);                                                 \
      switch (variant) {                                                                 \
        case 0: SM_##LV(F_); break;                                                      \
        case 1: SM_##LV##_STREAM(S_); break;                                             \
        case 2: SM_##LV##_NAMED(name, F_); break;                                        \
        case 3: SM_##LV##_STREAM_NAMED(name, S_); break;                                 \
        case 4: SM_##LV##_COND(A.c(), F_); break;                                        \
        case 5: SM_##LV##_STREAM_COND(A.c(), S_); break;                                 \
        case 6: SM_##LV##_COND_NAMED(A.c(), name, F_); break;                            \
        case 7: SM_##LV##_STREAM_COND_NAMED(A.c(), name, S_); break;                     \
        case 8: SM_##LV##_ONCE(F_); break;                                               \
        case 9: SM_##LV##_STREAM_ONCE(S_); break;                                        \
        case 10: SM_##LV##_ONCE_NAMED(name, F_); break;                                  \
        case 11: SM_##LV##_STREAM_ONCE_NAMED(name, S_); break;                           \
        case 12: SM_##LV##_THROTTLE(A.rate, F_); break;                                  \
        case 13: SM_##LV##_STREAM_THROTTLE(A.rate, S_); break;                           \
        case 14: SM_##LV##_THROTTLE_NAMED(A.rate, name, F_); break;                      \
        case 15: SM_##LV##_STREAM_THROTTLE_NAMED(A.rate, name, S_); break;               \
      }                                                                                  \
    }                                                                                    \
  };                                                                                     \
  void run_##LV(int inst, int variant, LogArgs& A) { if (inst == 0) Sites_##LV<0>::run(variant, A); else Sites_##LV<1>::run(variant, A); }
#define DECL(LV) void run_##LV(int inst, int variant, LogArgs& A);
DECL(ALL) DECL(FINEST) DECL(VERBOSE) DECL(FINER) DECL(TRACE) DECL(FINE) DECL(DEBUG) DECL(INFO) DECL(WARN) DECL(ERROR) DECL(FATAL)
