// The assertion macros of sm/logging/assert.h with conditions of every shape, included by
// translation units with and without NDEBUG (NS: the namespace, set by them).
#include <sm/logging.hpp>
#include <sm/logging/assert.h>
namespace NS {
struct Site {
  int x, y, evals = 0, cmds = 0, elses = 0, line = 0; bool entered;
  int g(int v) { evals++; return v; }
};
#define L_ s.line = __LINE__;
// the macro alone, and as the only statement of a branch
#define CMD_(c) SM_ASSERT_CMD(c, s.cmds++)
#define ALL_(M, b) \
  case b + 0: L_ M(s.g(s.x) > 0); break; \
  case b + 1: L_ M(s.g(s.x)); break; \
  case b + 2: L_ M(s.g(s.x) == s.y); break; \
  case b + 3: L_ M(s.g(s.x) && s.y); break; \
  case b + 4: L_ M(s.y || s.g(s.x)); break; \
  case b + 5: L_ M(s.g(s.x) & 1); break; \
  case b + 6: L_ M(s.g(s.x) ? s.y : !s.y); break; \
  case b + 7: L_ M(!s.g(s.x)); break; \
  case b + 8: L_ M(s.g(s.x) % 2 == 0); break; \
  case b + 9: L_ if (s.entered) M(s.g(s.x) > 0); else s.elses++; break;
#define MSG_(c) SM_ASSERT_MSG(c, "the value is %d of %s", s.x, "site")
#define BREAK_(c) SM_BREAK()
static void run(Site& s, int i) {
  switch (i) {
    ALL_(SM_ASSERT, 0)
    ALL_(MSG_, 10)
    ALL_(CMD_, 20)
    case 30: L_ SM_BREAK(); break;
    case 39: L_ if (s.entered) SM_BREAK(); else s.elses++; break;
  }
}
}
