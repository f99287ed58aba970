#define NDEBUG
#define NS release
#include "logasserts.hpp"
void runRelease(int x, int y, bool entered, int site, int* out) {
  release::Site s; s.x = x; s.y = y; s.entered = entered; release::run(s, site);
  out[0] = s.evals; out[1] = s.cmds; out[2] = s.elses; out[3] = s.line;
}
